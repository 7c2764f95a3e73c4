package harness

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"sync"

	c9 "verif/harness/pk/9p"
	ca "verif/harness/pk/alpha"
	ca1 "verif/harness/pk/alpha1"
	cdash "verif/harness/pk/go-dash"
	cinit "verif/harness/pk/init"
	cstr "verif/harness/pk/string"
	ctype "verif/harness/pk/type"
	cv2 "verif/harness/pk/v2"
	cxa "verif/harness/pk/x/alpha"
	cya "verif/harness/pk/y/alpha"
	cyaml "verif/harness/pk/yaml.v2"
)

// Every foreign package in every generated case declares the same members, so
// a reference that ends up in the wrong package still compiles and only the
// resolved import path tells it apart.
const uniformBody = `
// T0 is a comparable struct with methods.
type T0 struct{ X int }

// M0 is a value method.
func (T0) M0(a int) string { return "" }

// PM0 is a pointer method.
func (*T0) PM0(a ...string) {}

// T1 is numeric.
type T1 int

// M1 is a value method.
func (t T1) M1() T0 { return T0{} }

// S0 is not comparable.
type S0 []T0

// U is a struct that cannot be compared.
type U struct{ F func(T0) T1 }

// I0 is an interface.
type I0 interface{ MI0(a int) string }

// I1 embeds I0.
type I1 interface {
	I0
	MI1(...string)
}

// A0 is an alias.
type A0 = T0

// Ünï has a name outside ASCII.
type Ünï struct{}

// C0 and C1 are constants.
const (
	C0    = 1
	C1 T1 = 2
)

// V0 and V1 are variables.
var (
	V0 T0
	V1 []T0
)

// F0 and F1 are functions.
func F0(T0) error { return nil }

// F1 is variadic.
func F1(a ...T1) (x T0, err error) { return }
`

// MPkg is a foreign package available to a case.
type MPkg struct {
	Path, Name string
	Cat        bool // also exists as a compiled package of this harness
}

var (
	uniMu    sync.Mutex
	uniCache = map[string]*types.Package{}
)

// uniformPkg type-checks the uniform source under the given path and name.
func uniformPkg(path, name string) *types.Package {
	uniMu.Lock()
	defer uniMu.Unlock()
	key := path + "\x00" + name
	if p, ok := uniCache[key]; ok {
		return p
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "uniform.go", "package "+name+"\n"+uniformBody, 0)
	if err != nil {
		harnessBug("uniform package does not parse: %v (name %q)", err, name)
	}
	cfg := types.Config{}
	p, err := cfg.Check(path, fset, []*ast.File{f}, nil)
	if err != nil {
		harnessBug("uniform package does not check: %v", err)
	}
	uniCache[key] = p
	return p
}

// harnessBugError marks failures of the harness itself; the driver reports
// them as an error of the check, never as a violation.
const harnessBugMark = "HARNESS-ERROR:"

func harnessBug(format string, args ...any) {
	panic(harnessBugMark + " " + fmt.Sprintf(format, args...))
}

// world resolves imports during type checking.
type world struct {
	ext map[string]*MPkg
	gen map[string]*types.Package
}

func newWorld(ext []*MPkg) *world {
	w := &world{ext: map[string]*MPkg{}, gen: map[string]*types.Package{}}
	for _, p := range ext {
		w.ext[p.Path] = p
	}
	return w
}

func (w *world) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := w.gen[path]; ok {
		return p, nil
	}
	if p, ok := w.ext[path]; ok {
		return uniformPkg(p.Path, p.Name), nil
	}
	return nil, fmt.Errorf("package %q is not part of this case", path)
}

// Info about a named type that generators need to stay within valid Go.
type NamedInfo struct {
	Sym        MSym // PkgName is the real name
	Comparable bool
	Iface      bool
	Embeddable bool
	Numeric    bool
	Recv       bool // may have methods declared on it
	Exported   bool
	SpecID     int // >0: generated element
	Alias      bool
	ValMethods []string
	Target     *MT // what an alias stands for / underlying, where known
}

// uniformNamed lists the named types of a uniform package.
func uniformNamed(p *MPkg) []NamedInfo {
	s := func(n string) MSym { return MSym{p.Path, p.Name, n} }
	return []NamedInfo{
		{Sym: s("T0"), Comparable: true, Embeddable: true, Exported: true, ValMethods: []string{"M0"}},
		{Sym: s("T1"), Comparable: true, Embeddable: true, Numeric: true, Exported: true, ValMethods: []string{"M1"}},
		{Sym: s("S0"), Embeddable: true, Exported: true},
		{Sym: s("U"), Embeddable: true, Exported: true},
		{Sym: s("I0"), Comparable: true, Iface: true, Embeddable: true, Exported: true, ValMethods: []string{"MI0"}},
		{Sym: s("I1"), Comparable: true, Iface: true, Embeddable: true, Exported: true, ValMethods: []string{"MI0", "MI1"}},
		{Sym: s("A0"), Comparable: true, Embeddable: true, Exported: true, Alias: true},
		{Sym: s("Ünï"), Comparable: true, Embeddable: true, Exported: true},
	}
}

var predeclaredNamed = []NamedInfo{
	{Sym: MSym{Name: "error"}, Comparable: true, Iface: true, Embeddable: true, Exported: true, ValMethods: []string{"Error"}},
}

var unsafePointerInfo = NamedInfo{Sym: MSym{"unsafe", "unsafe", "Pointer"}, Comparable: true, Exported: true}

// catalogue: compiled packages with the uniform members, for reflect.Type.
type catPkg struct {
	MPkg
	types map[string]reflect.Type
}

var catalogue = []catPkg{
	{MPkg{"verif/harness/pk/alpha", "alpha", true}, ca.Types()},
	{MPkg{"verif/harness/pk/x/alpha", "alpha", true}, cxa.Types()},
	{MPkg{"verif/harness/pk/y/alpha", "alpha", true}, cya.Types()},
	{MPkg{"verif/harness/pk/alpha1", "alpha1", true}, ca1.Types()},
	{MPkg{"verif/harness/pk/yaml.v2", "yaml", true}, cyaml.Types()},
	{MPkg{"verif/harness/pk/go-dash", "dash", true}, cdash.Types()},
	{MPkg{"verif/harness/pk/type", "typ", true}, ctype.Types()},
	{MPkg{"verif/harness/pk/9p", "ninep", true}, c9.Types()},
	{MPkg{"verif/harness/pk/v2", "beta", true}, cv2.Types()},
	{MPkg{"verif/harness/pk/string", "str", true}, cstr.Types()},
	{MPkg{"verif/harness/pk/init", "initpkg", true}, cinit.Types()},
}

func catByPath(path string) *catPkg {
	for i := range catalogue {
		if catalogue[i].Path == path {
			return &catalogue[i]
		}
	}
	return nil
}

func init() {
	// the compiled packages must have the same members as the checked ones
	for _, c := range catalogue {
		p := uniformPkg(c.Path, c.Name)
		for n, rt := range c.types {
			if p.Scope().Lookup(n) == nil || (rt.PkgPath() != c.Path) || (rt.Name() != n && n != "A0") {
				harnessBug("catalogue type %s.%s differs from the uniform package (%s %s)", c.Path, n, rt.PkgPath(), rt.Name())
			}
		}
	}
	_ = strings.Join
}
