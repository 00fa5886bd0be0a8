package main

// Loading the program: /repo's current source with the harness laid over it.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Intrinsic func(r *Run, caller *frame, fn *ssa.Function, args []Value) Value

type Prog struct {
	prog       *ssa.Program
	fset       *token.FileSet
	module     string
	harnessPkg *ssa.Package
	vsPkg      *ssa.Package
	eager      []*ssa.Package
	runtimeErr types.Type
	noInit     map[string]bool

	mu       sync.Mutex
	icache   sync.Map // *ssa.Function -> Intrinsic (or nilIntr)
	mcache   sync.Map
	impl     sync.Map
	building sync.Map
}

type Harness struct {
	Name string
	fn   *ssa.Function
}

type buildOnce struct{ once sync.Once }

var built sync.Map

func buildPkg(p *ssa.Package) {
	o, _ := built.LoadOrStore(p, &buildOnce{})
	o.(*buildOnce).once.Do(func() { p.Build() })
}

// overlayFiles maps virtual files under the repository to harness sources.
func overlayFiles(repo, hdir string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"vs", "h"} {
		fs, err := filepath.Glob(filepath.Join(hdir, d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			m[filepath.Join(repo, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	return m, nil
}

func Load(repo, hdir string) (*Prog, error) {
	ov, err := overlayFiles(repo, hdir)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	mdir, err := os.MkdirTemp("", "verif-load-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(mdir)
	mf, err := modfile(repo, mdir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Fset:       fset,
		Overlay:    overlay,
		BuildFlags: []string{"-modfile=" + mf},
		Env:        goEnv("CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./zz_verif/h", "./zz_verif/vs")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, fset: fset, noInit: map[string]bool{
		"github.com/sirupsen/logrus": true, "os": true, "syscall": true, "reflect": true, "fmt": true, "log": true,
		"golang.org/x/sys/unix": true, "testing": true, "unique": true, "io/fs": false, "path/filepath": true,
		"os/exec": true, "unicode": true,
	}}
	for i, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/zz_verif/h") {
			P.harnessPkg = spkgs[i]
			P.module = strings.TrimSuffix(p.PkgPath, "/zz_verif/h")
		}
		if strings.HasSuffix(p.PkgPath, "/zz_verif/vs") {
			P.vsPkg = spkgs[i]
		}
	}
	if P.harnessPkg == nil || P.vsPkg == nil {
		return nil, fmt.Errorf("harness packages not found")
	}
	// module packages in dependency order
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] || !(p.Path() == P.module || strings.HasPrefix(p.Path(), P.module+"/")) {
			return
		}
		seen[p.Path()] = true
		imps := p.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		sp := prog.Package(p)
		buildPkg(sp)
		P.eager = append(P.eager, sp)
	}
	visit(P.harnessPkg.Pkg)
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "runtime" {
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				P.runtimeErr = o.Type()
			}
		}
	}
	if P.runtimeErr == nil {
		P.runtimeErr = types.Typ[types.String]
	}
	return P, nil
}

func (P *Prog) pkg(path string) *ssa.Package {
	return P.prog.ImportedPackage(path)
}

func (P *Prog) namedType(pkg, name string) types.Type {
	p := P.pkg(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (P *Prog) isHarness(path string) bool { return strings.HasPrefix(path, P.module+"/zz_verif/") }
func (P *Prog) isRepo(path string) bool {
	return (path == P.module || strings.HasPrefix(path, P.module+"/")) && !P.isHarness(path)
}

func (P *Prog) posn(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(q.Filename), q.Line)
}

func (P *Prog) harness(name string) *Harness {
	f := P.harnessPkg.Func(name)
	if f == nil {
		return nil
	}
	return &Harness{Name: name, fn: f}
}

func (P *Prog) harnessesFor(id string) []string {
	var out []string
	for n, m := range P.harnessPkg.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_"+id+"_") {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

type methKey struct {
	t types.Type
	n string
}

func (P *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := P.mcache.Load(k); ok {
		return f.(*ssa.Function)
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f != nil {
		P.mcache.Store(k, f)
	}
	return f
}

func (P *Prog) lookupMethodName(t types.Type, name string) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return P.prog.MethodValue(s)
		}
	}
	return nil
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (P *Prog) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := P.impl.Load(k); ok {
		return v.(bool)
	}
	P.mu.Lock()
	v := types.Implements(t, i)
	P.mu.Unlock()
	P.impl.Store(k, v)
	return v
}

var nilIntr = Intrinsic(nil)

func (P *Prog) intrinsic(fn *ssa.Function) Intrinsic {
	if v, ok := P.icache.Load(fn); ok {
		return v.(Intrinsic)
	}
	in := P.findIntrinsic(fn)
	P.icache.Store(fn, in)
	return in
}

func (P *Prog) findIntrinsic(fn *ssa.Function) Intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if f.Pkg != nil && f.Pkg == P.vsPkg {
		if in, ok := vsIntr[f.Name()]; ok && f.Signature.Recv() == nil {
			return in
		}
		return nil
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if pkg == "github.com/sirupsen/logrus" && f.Synthetic == "" {
		return logrusStub
	}
	return nil
}

// enterable lists functions of blocked packages that are plain enough to execute.
var enterable = map[string]bool{
	"(*os.SyscallError).Unwrap": true, "(*os.SyscallError).Error": true, "(*os.SyscallError).Timeout": true,
	"(syscall.Errno).Is": true, "(syscall.Errno).Temporary": true, "(syscall.Errno).Timeout": true,
	"(*internal/poll.DeadlineExceededError).Error": true, "(*internal/poll.DeadlineExceededError).Timeout": true,
	"(*internal/poll.DeadlineExceededError).Temporary": true, "os.IsTimeout": true, "os.underlyingError": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.underlyingErrorIs": true,
}

// blocked lists packages the engine does not enter.
func (P *Prog) blocked(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	if enterable[fn.String()] {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "os", "syscall", "reflect", "fmt", "internal/poll", "log", "os/exec", "runtime", "internal/reflectlite", "internal/godebug", "unique":
		return fn.Signature.Recv() == nil || fn.Pkg.Pkg.Path() != "fmt"
	case "net":
		if fn.Signature.Recv() == nil {
			return false
		}
	}
	return false
}
