package harness

import (
	"fmt"
	"go/token"
	"math"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

// TGen generates valid, non-generic Go types over a set of named types.
type TGen struct {
	R       R
	Named   []NamedInfo
	Blank   int // k/16: leave the package name of a reference unknown
	PNames  []string
	AnyTag  bool // tags may hold any bytes
	BigLen  bool
	Depth   int
	Reflect bool // only what reflect.*Of can build
	NoEmbed bool
	Unexp   bool // unexported field and method names too
	UseSpec bool // named generated types may go through their *TypeSpec
}

var defaultPNames = []string{"a", "b", "ctx", "x1", "string", "alpha", "error", "ärg", "_", "int", "T0", "func_", "e", "r"}

func (g *TGen) depth() int {
	if g.Depth == 0 {
		return 4
	}
	return g.Depth
}

// Type draws any type.
func (g *TGen) Type() *MT {
	m := g.typ(g.depth(), false)
	if rapid.IntRange(0, 95).Draw(g.R, "deep") < 95 {
		return m
	}
	// a type nested much deeper than people write them
	for i := rInt(g.R, 5, 45); i > 0; i-- {
		switch rInt(g.R, 0, 8) {
		case 0:
			m = &MT{K: KPtr, Elem: m}
		case 1:
			m = &MT{K: KSlice, Elem: m}
		case 2:
			m = &MT{K: KArray, Len: 1, Elem: m}
		case 3:
			m = &MT{K: KMap, Key: g.basic(), Elem: m}
		case 4:
			m = &MT{K: KChan, Dir: g.dir(), Elem: m}
		case 5:
			m = &MT{K: KFunc, Args: []MArg{{T: m}}}
		case 6:
			m = &MT{K: KFunc, Res: []MArg{{T: m}}}
		case 7:
			m = &MT{K: KFunc, Args: []MArg{{T: g.basic()}, {T: &MT{K: KSlice, Elem: m}}}, Var: true}
		default:
			m = &MT{K: KStruct, Fields: []MField{{Name: "F", T: m}}}
		}
	}
	return m
}

// Small draws a shallow type.
func (g *TGen) Small() *MT { return g.typ(1, false) }

func (g *TGen) basic() *MT {
	return &MT{K: KBasic, Basic: rPick(g.R, basicKinds), Route: rInt(g.R, 0, 1)}
}

func (g *TGen) namedMT(ni NamedInfo) *MT {
	m := &MT{K: KNamed, Sym: g.sym(ni.Sym), Route: rInt(g.R, 0, 1)}
	if ni.SpecID > 0 && g.UseSpec && rP(g.R, 8) {
		m.SpecID = ni.SpecID
		m.Sym = ni.Sym
	}
	return m
}

func (g *TGen) sym(s MSym) MSym {
	if s.Path != "" && s.Path != "unsafe" && g.Blank > 0 && rP(g.R, g.Blank) {
		s.PkgName = ""
	}
	return s
}

func (g *TGen) pickNamed(ok func(NamedInfo) bool) (NamedInfo, bool) {
	var c []NamedInfo
	for _, n := range g.Named {
		if ok == nil || ok(n) {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return NamedInfo{}, false
	}
	return rPick(g.R, c), true
}

func (g *TGen) leaf(cmp bool) *MT {
	if rP(g.R, 9) {
		if ni, ok := g.pickNamed(func(n NamedInfo) bool { return !cmp || n.Comparable }); ok {
			return g.namedMT(ni)
		}
	}
	return g.basic()
}

func (g *TGen) length() int64 {
	switch rWeighted(g.R, 8, 2, 1) {
	case 0:
		return int64(rInt(g.R, 0, 9))
	case 1:
		if g.BigLen {
			return rapid.Int64Range(0, math.MaxInt32).Draw(g.R, "len")
		}
		return int64(rInt(g.R, 10, 1000))
	default:
		if g.BigLen {
			return rapid.SampledFrom([]int64{math.MaxInt64, math.MaxInt32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, 1e15}).Draw(g.R, "len")
		}
		return 0
	}
}

func (g *TGen) dir() reflect.ChanDir {
	return rPick(g.R, []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir})
}

func (g *TGen) typ(d int, cmp bool) *MT {
	if d <= 0 {
		return g.leaf(cmp)
	}
	rt := rInt(g.R, 0, 5)
	wS, wF := 3, 3
	wI := 3
	if cmp {
		wF = 0
	}
	if g.Reflect {
		wI = 0
	}
	cw := 0
	if !cmp {
		cw = 3
	}
	switch rWeighted(g.R, 4, 3, cw, 3, cw, 4, wF, wS, wI) {
	case 0:
		return g.leaf(cmp)
	case 1:
		return &MT{K: KPtr, Elem: g.typ(d-1, false)}
	case 2:
		return &MT{K: KSlice, Elem: g.typ(d-1, false)}
	case 3:
		n := g.length()
		if g.Reflect && n > 16 {
			n = 16
		}
		el := g.typ(d-1, cmp)
		if g.Reflect && rP(g.R, 1) {
			// only arrays of size zero can be as long as that
			el = &MT{K: KStruct}
			if rP(g.R, 5) {
				el = &MT{K: KArray, Elem: el}
			}
			n = rPick(g.R, []int64{17, 255, 256, 1<<16 + 1, math.MaxInt32, math.MaxInt32 + 1, 1<<32 + 3, 1<<53 + 1, math.MaxInt64})
		}
		return &MT{K: KArray, Len: n, Elem: el}
	case 4:
		return &MT{K: KMap, Key: g.typ(d-1, true), Elem: g.typ(d-1, false)}
	case 5:
		return &MT{K: KChan, Dir: g.dir(), Elem: g.typ(d-1, false), Route: rt}
	case 6:
		m := g.Sig(d - 1)
		m.Route = rt
		return m
	case 7:
		return g.Struct(d-1, cmp)
	default:
		return g.Iface(d - 1)
	}
}

// count draws the length of a list: one of the given, or now and then a much
// larger one, with simple elements.
func (g *TGen) count(d *int, small ...int) int {
	i := rInt(g.R, 0, 10*len(small))
	if i == 10*len(small) && *d < 3 {
		*d = 0
		if rP(g.R, 2) {
			return rInt(g.R, 15, 40)
		}
		return rInt(g.R, 5, 14)
	}
	return small[i%len(small)]
}

// Sig draws a function signature.
func (g *TGen) Sig(d int) *MT {
	m := &MT{K: KFunc}
	used := map[string]bool{}
	mk := func(n int) []MArg {
		mode := rInt(g.R, 0, 2) // unnamed, named, mixed
		if g.Reflect {
			mode = 0
		}
		var r []MArg
		for i := 0; i < n; i++ {
			a := MArg{T: g.typ(d, false)}
			if mode == 1 || mode == 2 && rP(g.R, 8) {
				a.Name = g.pname(used)
				if g.PNames == nil && a.Name != "_" {
					likeType(g.R, &a.Name, a.T, used, true)
				}
			}
			r = append(r, a)
		}
		return r
	}
	m.Args = mk(g.count(&d, 0, 1, 2, 3))
	m.Res = mk(g.count(&d, 0, 1, 2, 3))
	if n := len(m.Args); n > 0 && rP(g.R, 5) {
		m.Var = true
		if m.Args[n-1].T.K != KSlice {
			m.Args[n-1].T = &MT{K: KSlice, Elem: m.Args[n-1].T}
		}
	}
	return m
}

func (g *TGen) pname(used map[string]bool) string {
	names := g.PNames
	if names == nil {
		names = defaultPNames
	}
	n := rPick(g.R, names)
	if n == "_" {
		return n
	}
	for i := 0; used[n]; i++ {
		n = fmt.Sprintf("pq_%d", i)
	}
	used[n] = true
	return n
}

var fieldNames = []string{"A", "B", "Fld", "X", "String", "Ünä", "Type", "C"}
var fieldNamesUnexp = []string{"_", "a", "fld", "int", "alpha", "ö", "string"}

// Struct draws an unnamed struct type.
func (g *TGen) Struct(d int, cmp bool) *MT {
	m := &MT{K: KStruct}
	used := map[string]bool{}
	n := g.count(&d, 0, 1, 2, 3, 4)
	for i := 0; i < n; i++ {
		var f MField
		if !g.NoEmbed && rP(g.R, 4) {
			if ft, name, ok := g.embedded(cmp); ok && !used[name] {
				used[name] = true
				f.T = ft
			}
		}
		if f.T == nil {
			names := fieldNames
			if g.Unexp && rP(g.R, 6) {
				names = fieldNamesUnexp
			}
			f.Name = rPick(g.R, names)
			for used[f.Name] && f.Name != "_" {
				f.Name = fmt.Sprintf("G%d", rInt(g.R, 0, 1000))
			}
			if f.Name != "_" {
				used[f.Name] = true
			}
			f.T = g.typ(d, cmp)
			likeType(g.R, &f.Name, f.T, used, g.Unexp)
		}
		if rP(g.R, 6) {
			f.Tag = g.Tag()
		}
		m.Fields = append(m.Fields, f)
	}
	return m
}

// likeType may rename a field after the type it has, as in "Foo *Foo".
func likeType(t R, name *string, m *MT, used map[string]bool, unexp bool) {
	if !rP(t, 4) {
		return
	}
	for m.K == KPtr {
		m = m.Elem
	}
	var n string
	switch m.K {
	case KBasic:
		n = m.Src(nil)
	case KNamed:
		n = m.Sym.Name
	}
	if n == "" || used[n] || !unexp && !token.IsExported(n) {
		return
	}
	delete(used, *name)
	*name = n
	used[n] = true
}

// embedded draws the type of an embedded field and the field's name.
func (g *TGen) embedded(cmp bool) (*MT, string, bool) {
	if rP(g.R, 2) && !g.Reflect {
		b := g.basic()
		n := b.Src(nil)
		if rP(g.R, 6) {
			return &MT{K: KPtr, Elem: b}, n, true
		}
		return b, n, true
	}
	ni, ok := g.pickNamed(func(n NamedInfo) bool { return n.Embeddable && (!cmp || n.Comparable) })
	if !ok {
		return nil, "", false
	}
	m := g.namedMT(ni)
	if !ni.Iface && rP(g.R, 6) {
		m = &MT{K: KPtr, Elem: m}
	}
	return m, ni.Sym.Name, true
}

var plainTags = []string{`json:"a"`, `json:"b,omitempty" xml:"c"`, "a`b", `q"uote`, `back\slash`, "new\nline", "tab\tx", "é", " ", "%s%d"}

// Tag draws a struct tag.
func (g *TGen) Tag() string {
	if g.AnyTag && rP(g.R, 6) {
		return string(rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(g.R, "tag"))
	}
	if rP(g.R, 3) {
		return rapid.StringN(1, 6, -1).Draw(g.R, "tag")
	}
	return rPick(g.R, plainTags)
}

var methodNames = []string{"Do", "Get", "Run", "Ümé", "Len", "T0"}
var methodNamesUnexp = []string{"do", "get", "string"}

// Iface draws an unnamed interface type.
func (g *TGen) Iface(d int) *MT {
	m := &MT{K: KIface}
	used := map[string]bool{}
	if !g.NoEmbed {
		seen := map[MSym]bool{}
		for i := rSize(g.R, 6, 0, 0, 1, 2); i > 0; i-- {
			ni, ok := g.pickNamed(func(n NamedInfo) bool { return n.Iface })
			k := ni.Sym
			if !ok || seen[k] {
				continue
			}
			clash := false
			for _, mm := range ni.ValMethods {
				// the uniform packages' interfaces overlap compatibly; others do not
				if used[mm] && !strings.HasPrefix(mm, "MI") {
					clash = true
				}
			}
			if clash {
				continue
			}
			for _, mm := range ni.ValMethods {
				used[mm] = true
			}
			seen[k] = true
			m.Embeds = append(m.Embeds, g.sym(ni.Sym))
		}
	}
	for i := g.count(&d, 0, 1, 1, 2, 3); i > 0; i-- {
		names := methodNames
		if g.Unexp && rP(g.R, 5) {
			names = methodNamesUnexp
		}
		n := rPick(g.R, names)
		if used[n] {
			n = fmt.Sprintf("M%d", 100+i)
		}
		if used[n] {
			continue
		}
		used[n] = true
		s := g.Sig(d)
		m.Methods = append(m.Methods, MMethod{n, s})
	}
	return m
}

// ------------------------------------------------------------ package pools

var realNames = []string{"alpha", "alpha1", "beta", "alpha11", "alpha2", "x_y", "Ünïp", "typ", "beta1"}

var pathBases = []string{"alpha", "alpha1", "beta", "alpha2", "b.v2", "go-x", "type", "9p", "string", "init", "v2", "x_y", "Ünï", "_", "a+b", "~t",
	"func", "nil", "main", "go.uber", "alpha-1", "-", "9", "1alpha", "alpha.1", "true", "iota", "select", "a@v1.2", "error", "vendor", "é", "len"}
var pathDirs = []string{"ex.com/a/", "ex.com/b/", "ex.com/c/d/", "ex.com/9/", "", "ex.com/alpha/"}

// relatedPath draws an import path that is easily mistaken for the given one.
// Its base is no name that generated elements have.
func relatedPath(t R, p string) string {
	p = relatedPath1(t, p)
	base := p[strings.LastIndex(p, "/")+1:]
	if len(base) > 0 && base[0] >= 'A' && base[0] <= 'Z' && strings.Trim(base[1:], "0123456789") == "" {
		p += "_"
	}
	return p
}

func relatedPath1(t R, p string) string {
	dir, base := "", p
	if i := strings.LastIndex(p, "/"); i >= 0 {
		dir, base = p[:i], p[i+1:]
	}
	up := func(s string) string {
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	}
	r := []rune(p)
	switch rInt(t, 0, 13) {
	case 0:
		return p + "_test"
	case 1:
		return p + "/" + rPick(t, []string{"alpha", "v2", "internal", base})
	case 2:
		if dir != "" {
			return dir
		}
		return "ex.com/" + p
	case 3:
		return dir + "/" + up(base)
	case 4:
		return up(string(r[:1])) + string(r[1:])
	case 5:
		return "vendor/" + p
	case 6:
		return "ex.com/x/vendor/" + p
	case 7:
		return p + "s"
	case 8:
		if len(r) > 1 && r[len(r)-2] != '/' {
			return string(r[:len(r)-1])
		}
		return p + "x"
	case 9:
		return p + rPick(t, []string{".v2", ".git", "-go", "/v2", "2", "/", ".go"})
	case 10:
		return "ex.com/" + base
	case 11:
		return "x" + p
	case 12:
		return rPick(t, []string{"./", "../", "/"}) + base
	default:
		return strings.Replace(p, "/", rPick(t, []string{"//", "/./", "_", "."}), 1)
	}
}

// genPkgs draws a pool of foreign packages with distinct paths, biased to
// conflicting names and to path bases that are not usable as a name.
func genPkgs(t R, min, max int, catOnly bool) []*MPkg {
	n := rInt(t, min, max)
	var out []*MPkg
	seen := map[string]bool{"unsafe": true, ownPath: true, "ex.com/own/owner": true, "ex.com/own/alpha": true}
	for len(out) < n {
		var p MPkg
		if catOnly || rP(t, 5) {
			p = rPick(t, catalogue).MPkg
		} else {
			if p.Path = rPick(t, pathDirs) + rPick(t, pathBases); rP(t, 2) {
				to := []string{ownPath, "ex.com/a/alpha", "ex.com/own/owner", "ex.com/own/alpha"}
				for _, o := range out {
					to = append(to, o.Path)
				}
				p.Path = relatedPath(t, rPick(t, to))
			}
			p.Name = rPick(t, realNames)
			base := p.Path[strings.LastIndex(p.Path, "/")+1:]
			if rP(t, 6) && isPlainPkgName(base) {
				p.Name = base
			}
		}
		for i := 0; seen[p.Path]; i++ {
			if catOnly {
				break
			}
			p.Cat = false
			p.Path = fmt.Sprintf("ex.com/p%d/%s", i, rPick(t, pathBases))
		}
		if seen[p.Path] {
			n--
			continue
		}
		seen[p.Path] = true
		q := p
		out = append(out, &q)
	}
	return out
}

var predeclaredAll = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`any bool byte comparable complex64 complex128 error float32 float64 int int8 int16 int32 int64 rune string
		uint uint8 uint16 uint32 uint64 uintptr true false iota nil append cap clear close complex copy delete imag len make max min new panic print println real recover`) {
		predeclaredAll[n] = true
	}
}

// isPlainPkgName: a legal package name that shadows nothing predeclared.
func isPlainPkgName(n string) bool {
	return isGoIdent(n) && !predeclaredAll[n] && n != "_" && n != "init" && n != "main"
}

func allNamed(pkgs []*MPkg) []NamedInfo {
	var r []NamedInfo
	for _, p := range pkgs {
		r = append(r, uniformNamed(p)...)
	}
	return r
}
