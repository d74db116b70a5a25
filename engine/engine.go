package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Config struct {
	Thorough bool
}

type Engine struct {
	prog       *ssa.Program
	fset       *token.FileSet
	cfg        Config
	redirects  map[string]*ssa.Function
	globalInit map[string]*ssa.Function
	rtErrType  types.Type
	maxSteps   int
	profile    bool

	samplePerWorker int

	baseMu      sync.Mutex
	baseGlobals sync.Map // *ssa.Global -> *Value
	baseDone    map[*ssa.Package]bool
	baseStarted map[*ssa.Package]bool

	pkg *ssa.Package // harness package
}

const harnessMod = "verif/harness"

// packages with per-path state (everything else is initialised once and shared)
var perPath = []string{
	"github.com/mashmb/", harnessMod,
	"github.com/spf13/", "github.com/jroimartin/gocui", "github.com/nsf/termbox-go",
	"github.com/jedib0t/",
}

func (e *Engine) isStd(path string) bool {
	for _, q := range perPath {
		if strings.HasPrefix(path, q) {
			return false
		}
	}
	return true
}

func loadEngine(dir, pkgPath string, env []string, flags []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        dir,
		Env:        env,
		BuildFlags: flags,
	}
	cfg.Overlay = map[string][]byte{}
	for name, src := range appSources("/repo/1pass-app") {
		cfg.Overlay[filepath.Join(dir, "zz_app", name)] = []byte(src)
	}
	pkgs, err := packages.Load(cfg, pkgPath)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(bad) < 2000 {
				bad += e.Error() + "\n"
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("load: %s", bad)
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	eng := &Engine{prog: prog, fset: prog.Fset, redirects: map[string]*ssa.Function{}, globalInit: map[string]*ssa.Function{},
		maxSteps: 30000000, baseDone: map[*ssa.Package]bool{}, baseStarted: map[*ssa.Package]bool{}, samplePerWorker: 2}
	if sp[0] == nil {
		return nil, fmt.Errorf("no ssa package for %s", pkgPath)
	}
	eng.pkg = sp[0]
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	eng.rtErrType = rt.Type("errorString").Type()
	// directives in the harness module
	var err2 error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, harnessMod) {
			return
		}
		spk := prog.ImportedPackage(p.PkgPath)
		if spk == nil {
			spk = prog.Package(p.Types)
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					for _, dir := range []string{"//verif:for ", "//verif:global "} {
						if !strings.HasPrefix(c.Text, dir) {
							continue
						}
						obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
						fn := prog.FuncValue(obj)
						if fn == nil {
							err2 = fmt.Errorf("no function for directive %s", c.Text)
							return
						}
						for _, n := range strings.Fields(strings.TrimPrefix(c.Text, dir)) {
							if dir == "//verif:for " {
								eng.redirects[n] = fn
							} else {
								eng.globalInit[n] = fn
							}
						}
					}
				}
			}
		}
	})
	return eng, err2
}

func (e *Engine) pkgByPath(path string) *ssa.Package {
	return e.prog.ImportedPackage(path)
}

func (e *Engine) fnByName(n string) *ssa.Function {
	i := strings.LastIndex(n, ".")
	pk := e.pkgByPath(n[:i])
	if pk == nil {
		unsup("package of %s not loaded", n)
	}
	f := pk.Func(n[i+1:])
	if f == nil {
		unsup("no function %s", n)
	}
	return f
}

var bodyCache sync.Map

// bodyInfo gives the interpretable body of a function that normally has a model.
func (e *Engine) bodyInfo(fn *ssa.Function) *fnInfo {
	if v, ok := bodyCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	inf := e.mkInfo(fn, true)
	bodyCache.Store(fn, inf)
	return inf
}

// baseGlobal returns the shared slot of a global of a base package, running the package's
// initialiser on first use.
func (e *Engine) baseGlobal(g *ssa.Global) Value {
	if v, ok := e.baseGlobals.Load(g); ok {
		if e.ready(g.Pkg) {
			return v.(*Value)
		}
	}
	e.baseMu.Lock()
	defer e.baseMu.Unlock()
	e.baseInitPkg(g.Pkg)
	return e.slot(g)
}

var readyMu sync.RWMutex

func (e *Engine) ready(pk *ssa.Package) bool {
	readyMu.RLock()
	defer readyMu.RUnlock()
	return e.baseDone[pk]
}

func (e *Engine) slot(g *ssa.Global) Value {
	if v, ok := e.baseGlobals.Load(g); ok {
		return v.(*Value)
	}
	v := new(Value)
	*v = zero(deref(g.Type()))
	if g.Name() == "Args" && g.Pkg.Pkg.Path() == "os" {
		*v = []Value{"1pass"}
	}
	if skipInit[g.Pkg.Pkg.Path()] && deref(g.Type()).String() == "error" {
		*v = e.errorValue(g)
	}
	a, _ := e.baseGlobals.LoadOrStore(g, v)
	return a.(*Value)
}

// errorValue gives an error variable of a package whose initialiser is not interpreted the value
// of its declaration: errors.New of a constant, another error variable, or whatever the function
// called there returns.
func (e *Engine) errorValue(g *ssa.Global) Value {
	buildMu.Lock()
	g.Pkg.Build()
	buildMu.Unlock()
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			switch x := st.Val.(type) {
			case *ssa.Call:
				f := x.Call.StaticCallee()
				var args []Value
				for _, a := range x.Call.Args {
					c, ok := a.(*ssa.Const)
					if !ok {
						unsup("initial value of %s", g)
					}
					args = append(args, constValue(c))
				}
				if f == nil {
					break
				}
				q := e.initPath()
				q.basePkg = g.Pkg
				return q.call(f, args, nil)
			case *ssa.UnOp:
				if h, ok := x.X.(*ssa.Global); ok {
					e.baseInitPkg(h.Pkg)
					return *(e.slot(h).(*Value))
				}
			case *ssa.MakeInterface:
				if u, ok := x.X.(*ssa.Alloc); ok && deref(u.Type()).Underlying().String() == "struct{}" {
					z := new(Value)
					*z = zero(deref(u.Type()))
					return Iface{x.X.Type(), z}
				}
			}
			unsup("initial value of %s", g)
		}
	}
	return zero(deref(g.Type()))
}

// skipInit: packages whose initialisers cannot or need not be interpreted (their zero state is used).
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/godebug": true, "syscall": true,
	"internal/syscall/unix": true, "internal/poll": true, "os": true, "net": true, "net/http": true,
	"crypto/internal/fips140/check": true, "golang.org/x/sys/unix": true, "golang.org/x/sys/cpu": true,
	"testing": true, "os/signal": true, "reflect": true, "internal/reflectlite": true,
	"crypto/internal/sysrand": true, "vendor/golang.org/x/net/http2/hpack": true,
}

// baseInitPkg runs a package initialiser (baseMu held).
func (e *Engine) baseInitPkg(pk *ssa.Package) {
	if e.baseStarted[pk] {
		return
	}
	e.baseStarted[pk] = true
	defer func() {
		readyMu.Lock()
		e.baseDone[pk] = true
		readyMu.Unlock()
	}()
	if skipInit[pk.Pkg.Path()] {
		return
	}
	q := e.initPath()
	q.basePkg = pk
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "init of %s: %v @ %s\n", pk.Pkg.Path(), r, q.abortStack)
			}
			initFailures.Store(pk.Pkg.Path(), fmt.Sprint(r))
		}
	}()
	q.call(pk.Func("init"), nil, nil)
}

func (e *Engine) initPath() *Path {
	p := &Path{eng: e, pool: NewPool(), pcSet: map[int]bool{}, names: map[string]int{}, globals: map[*ssa.Global]*Value{},
		numText: map[int][]Value{}, host: map[string]interface{}{}, baseInit: true}
	p.mainG = &G{resume: make(chan struct{})}
	p.cur = p.mainG
	return p
}

var initFailures sync.Map

func (e *Engine) fnByMethod(pkg, typ, meth string) *ssa.Function {
	pk := e.pkgByPath(pkg)
	t := pk.Type(typ).Type()
	buildMu.Lock()
	defer buildMu.Unlock()
	f := e.prog.LookupMethod(t, pk.Pkg, meth)
	if f == nil {
		f = e.prog.LookupMethod(types.NewPointer(t), pk.Pkg, meth)
	}
	return f
}

// runZone is the local time zone of symbolic runs and replays (vm's native side sets the same).
var runZone = time.FixedZone("VRF", 9000)

func timeFormat(sec int64, layout string, local bool) string {
	t := time.Unix(sec, 0).UTC()
	if local {
		t = t.In(runZone)
	}
	return t.Format(layout)
}
