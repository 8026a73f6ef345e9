// verifinstr copies the repository's modules into a build directory and rewrites
// the copy so that every source of nondeterminism goes through the simulator.
//
// The rewrite is generic: it knows Go and the standard packages, nothing about
// the repository's code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verifinstr: "+f+"\n", a...)
	os.Exit(3)
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	verif   = flag.String("verif", "/verif", "verification directory")
	out     = flag.String("out", "", "build directory")
	verbose = flag.Bool("v", false, "")
)

// remap lists the packages replaced by simulated ones.
var remap = map[string]string{
	"sync":                      "verifsim/simsync",
	"os":                        "verifsim/simos",
	"time":                      "verifsim/simtime",
	"math/rand":                 "verifsim/simrand",
	"math/rand/v2":              "verifsim/simrand2",
	"crypto/rand":               "verifsim/simcrand",
	"runtime":                   "verifsim/simruntime",
	"log":                       "verifsim/simlog",
	"fmt":                       "verifsim/simfmt",
	"io/ioutil":                 "verifsim/simioutil",
	"path/filepath":             "verifsim/simfilepath",
	"context":                   "verifsim/simcontext",
	"io":                        "verifsim/simio",
	"maps":                      "verifsim/simmaps",
	"github.com/nsf/termbox-go": "verifsim/simtermbox",
	"syscall/js":                "verifsim/simjs",
}

var realName = map[string]string{
	"math/rand/v2":              "rand",
	"crypto/rand":               "rand",
	"github.com/nsf/termbox-go": "termbox",
	"io/ioutil":                 "ioutil",
	"path/filepath":             "filepath",
	"math/rand":                 "rand",
	"syscall/js":                "js",
}

type module struct {
	dir  string // relative to repo
	path string
}

type srcFile struct {
	rel  string
	src  []byte
	ast  *ast.File
	pkg  *pkgInfo
	wasm bool
}

type pkgInfo struct {
	dir   string // relative
	path  string
	files []*srcFile
	info  *types.Info
	tpkg  *types.Package
	wasm  bool
	busy  bool
	imps  map[string]bool

	resets map[int]bool // initializers which can be run again
	zeros  int
	inits  int
}

var (
	fset    = token.NewFileSet()
	mods    []module
	pkgs    = map[string]*pkgInfo{} // by import path
	order   []*pkgInfo
	exports = map[string]string{}
	gcimp   types.ImporterFrom
	simExp  = map[string]map[string]bool{} // exported names of sim packages
)

func main() {
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	readWork()
	for _, m := range mods {
		scan(m)
	}
	loadExports()
	for _, p := range order {
		check(p)
	}
	loadSimNames()
	sites := newSites()
	for _, p := range order {
		for _, f := range p.files {
			rewrite(p, f, sites)
		}
		if len(p.files) > 0 {
			writeReset(p)
		}
		if p.tpkg != nil && p.tpkg.Name() == "main" {
			hookMain(p)
		}
	}
	writeWork()
	sites.write()
}

// ---- reading ----

var useRe = regexp.MustCompile(`(?m)^\s*(?:use\s+)?(\.[^\s()]*|[A-Za-z][^\s()]*)\s*$`)

func readWork() {
	b, err := os.ReadFile(filepath.Join(*repo, "go.work"))
	if err != nil {
		die("%v", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		line = strings.TrimSpace(strings.TrimPrefix(line, "use "))
		if line == "" || strings.HasPrefix(line, "go ") || strings.HasPrefix(line, "toolchain ") ||
			strings.ContainsAny(line, "()=") || line == "use" {
			continue
		}
		d := filepath.Clean(strings.Trim(line, `"`))
		if d == "example" || d == ".issues" {
			continue
		}
		mb, err := os.ReadFile(filepath.Join(*repo, d, "go.mod"))
		if err != nil {
			die("%v", err)
		}
		m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mb)
		if m == nil {
			die("no module line in %s/go.mod", d)
		}
		mods = append(mods, module{d, string(m[1])})
	}
	if len(mods) == 0 {
		die("no modules in go.work")
	}
}

func scan(m module) {
	root := filepath.Join(*repo, m.dir)
	for _, f := range []string{"go.mod", "go.sum"} {
		copyFile(filepath.Join(root, f), filepath.Join(*out, m.dir, f), f == "go.sum")
	}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if fi.IsDir() {
			if p == root {
				return nil
			}
			b := fi.Name()
			if b == "testdata" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "vendor" {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			switch filepath.Ext(p) {
			case ".s", ".h", ".c":
				copyFile(p, filepath.Join(*out, rel), false)
			}
			return nil
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		addFile(m, rel, p)
		return nil
	})
	if err != nil {
		die("%v", err)
	}
}

func copyFile(from, to string, optional bool) {
	b, err := os.ReadFile(from)
	if err != nil {
		if optional {
			return
		}
		die("%v", err)
	}
	_ = os.MkdirAll(filepath.Dir(to), 0755)
	if err := os.WriteFile(to, b, 0644); err != nil {
		die("%v", err)
	}
}

func addFile(m module, rel, full string) {
	dir, name := filepath.Split(full)
	native := build.Default
	native.GOOS, native.GOARCH = "linux", "amd64"
	native.CgoEnabled = false
	wasm := native
	wasm.GOOS, wasm.GOARCH = "js", "wasm"
	okN, err := native.MatchFile(dir, name)
	if err != nil {
		die("%s: %v", rel, err)
	}
	okW, _ := wasm.MatchFile(dir, name)
	if !okN && !okW {
		return
	}
	src, err := os.ReadFile(full)
	if err != nil {
		die("%v", err)
	}
	af, err := parser.ParseFile(fset, full, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	pdir := filepath.Dir(rel)
	sub, _ := filepath.Rel(m.dir, pdir)
	path := m.path
	if sub != "." {
		path += "/" + filepath.ToSlash(sub)
	}
	p := pkgs[path]
	if p == nil {
		p = &pkgInfo{dir: pdir, path: path, imps: map[string]bool{}}
		pkgs[path] = p
		order = append(order, p)
	}
	f := &srcFile{rel: rel, src: src, ast: af, pkg: p, wasm: okW && !okN}
	if f.wasm {
		p.wasm = true
	}
	p.files = append(p.files, f)
	// a package with wasm-only files is built as if for wasm: native-only
	// alternatives are dropped below
	_ = okW
	for _, s := range af.Imports {
		ip, _ := strconv.Unquote(s.Path.Value)
		p.imps[ip] = true
	}
}

func loadExports() {
	set := map[string]bool{"fmt": true}
	for _, p := range order {
		if p.wasm { // drop files excluded under js/wasm
			ctx := build.Default
			ctx.GOOS, ctx.GOARCH = "js", "wasm"
			var keep []*srcFile
			for _, f := range p.files {
				if ok, _ := ctx.MatchFile(filepath.Join(*repo, p.dir), filepath.Base(f.rel)); ok {
					keep = append(keep, f)
				}
			}
			p.files = keep
		}
		for ip := range p.imps {
			if pkgs[ip] == nil && ip != "syscall/js" && ip != "C" && ip != "unsafe" {
				set[ip] = true
			}
		}
	}
	var list []string
	for ip := range set {
		list = append(list, ip)
	}
	sort.Strings(list)
	writeWork()
	args := append([]string{"list", "-e", "-deps", "-export", "-json=ImportPath,Export,Error"}, list...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *out
	cmd.Env = append(os.Environ(), "GOWORK="+filepath.Join(*out, "go.work"))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var e struct {
			ImportPath, Export string
			Error              *struct{ Err string }
		}
		if err := dec.Decode(&e); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		if e.Error != nil {
			die("go list %s: %s", e.ImportPath, e.Error.Err)
		}
		if e.Export != "" {
			exports[e.ImportPath] = e.Export
		}
	}
	gcimp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}).(types.ImporterFrom)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := pkgs[path]; p != nil {
		check(p)
		return p.tpkg, nil
	}
	if path == "syscall/js" {
		return jsPkg()
	}
	return gcimp.ImportFrom(path, "", 0)
}

var jsTypes *types.Package

// jsPkg type-checks the simulated syscall/js from source.
func jsPkg() (*types.Package, error) {
	if jsTypes != nil {
		return jsTypes, nil
	}
	dir := filepath.Join(*verif, "sim", "simjs")
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var fs []*ast.File
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				return nil, err
			}
			f.Name.Name = "js"
			fs = append(fs, f)
		}
	}
	conf := types.Config{Importer: imp{}, Error: func(error) {}}
	jsTypes, _ = conf.Check("syscall/js", fset, fs, nil)
	return jsTypes, nil
}

func check(p *pkgInfo) {
	if p.tpkg != nil {
		return
	}
	if p.busy {
		die("import cycle at %s", p.path)
	}
	p.busy = true
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	p.resets = map[int]bool{}
	var errs []string
	conf := types.Config{Importer: imp{}, Error: func(err error) { errs = append(errs, err.Error()) }}
	var fs []*ast.File
	for _, f := range p.files {
		fs = append(fs, f.ast)
	}
	if len(fs) == 0 {
		p.tpkg = types.NewPackage(p.path, "empty")
		return
	}
	tp, _ := conf.Check(p.path, fset, fs, p.info)
	p.tpkg = tp
	if len(errs) > 0 {
		// the wasm program is checked against stand-ins; others must be clean
		if !p.wasm {
			die("type errors in %s:\n%s", p.path, strings.Join(errs, "\n"))
		}
		if *verbose {
			fmt.Fprintf(os.Stderr, "note: %s: %s\n", p.path, strings.Join(errs, "; "))
		}
	}
}

func loadSimNames() {
	for _, sp := range remap {
		if simExp[sp] != nil {
			continue
		}
		names := map[string]bool{}
		dir := filepath.Join(*verif, "sim", strings.TrimPrefix(sp, "verifsim/"))
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						names[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							names[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								names[n.Name] = true
							}
						}
					}
				}
			}
		}
		simExp[sp] = names
	}
}

// ---- sites ----

type siteTab struct {
	files []string
	fidx  map[string]int
	rows  [][2]int // file, line
}

func newSites() *siteTab { return &siteTab{fidx: map[string]int{}, rows: [][2]int{{0, 0}}} }

func (s *siteTab) add(rel string, line int) int {
	i, ok := s.fidx[rel]
	if !ok {
		i = len(s.files)
		s.files = append(s.files, rel)
		s.fidx[rel] = i
	}
	s.rows = append(s.rows, [2]int{i, line})
	return len(s.rows) - 1
}

func (s *siteTab) write() {
	dir := filepath.Join(*out, "verifgen")
	_ = os.MkdirAll(dir, 0755)
	var b bytes.Buffer
	b.WriteString("package verifgen\n\nimport (\n\t\"strconv\"\n\n\t\"verifsim/sim\"\n)\n\n")
	fmt.Fprintf(&b, "var files = []string{\n")
	for _, f := range s.files {
		fmt.Fprintf(&b, "\t%q,\n", f)
	}
	b.WriteString("}\n\nvar rows = [][2]int32{\n")
	for i, r := range s.rows {
		fmt.Fprintf(&b, "{%d,%d},", r[0], r[1])
		if i%16 == 15 {
			b.WriteString("\n")
		}
	}
	b.WriteString("}\n\n")
	b.WriteString(`func init() {
	sim.Sites = len(rows)
	sim.SiteNames = func(s uint32) string {
		if s == 0 || int(s) >= len(rows) {
			return "harness"
		}
		return files[rows[s][0]] + ":" + strconv.Itoa(int(rows[s][1]))
	}
}

// Files lists the instrumented source files.
func Files() []string { return files }
`)
	mustWrite(filepath.Join(dir, "sites.go"), b.Bytes())
	mustWrite(filepath.Join(dir, "go.mod"), []byte("module verifgen\n\ngo 1.24\n"))
}

func mustWrite(p string, b []byte) {
	_ = os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

func writeWork() {
	var b bytes.Buffer
	b.WriteString("go 1.27\n\nuse (\n")
	for _, m := range mods {
		fmt.Fprintf(&b, "\t./%s\n", m.dir)
	}
	fmt.Fprintf(&b, "\t%s\n\t%s\n", filepath.Join(*verif, "sim"), filepath.Join(*verif, "harness"))
	b.WriteString("\t./verifgen\n)\n")
	mustWrite(filepath.Join(*out, "go.work"), b.Bytes())
	copyFile(filepath.Join(*repo, "go.work.sum"), filepath.Join(*out, "go.work.sum"), true)
	if _, err := os.Stat(filepath.Join(*out, "verifgen", "go.mod")); err != nil {
		mustWrite(filepath.Join(*out, "verifgen", "go.mod"), []byte("module verifgen\n\ngo 1.24\n"))
		mustWrite(filepath.Join(*out, "verifgen", "sites.go"), []byte("package verifgen\n"))
	}
}

func hookMain(p *pkgInfo) {
	mustWrite(filepath.Join(*out, p.dir, "verif_main_v.go"),
		[]byte("package "+mainName(p)+"\n\n// VerifMain runs the program.\nfunc VerifMain() { main() }\n"))
}

func mainName(p *pkgInfo) string {
	return "verif_" + regexp.MustCompile(`[^a-z0-9]`).ReplaceAllString(strings.ToLower(filepath.Base(p.dir)), "_")
}
