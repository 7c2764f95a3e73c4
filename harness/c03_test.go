package harness

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// aliasTable says what alias names stand for, so that both sides of a
// comparison can be brought to the same form.
type aliasTable map[MSym]*MT

func (a aliasTable) get(s MSym) *MT {
	if s.Path == "" && s.Name == "any" {
		return &MT{K: KIface}
	}
	if s.Name == "A0" && s.Path != "" && s.Path != ownPath {
		t := s
		t.Name = "T0"
		return &MT{K: KNamed, Sym: t}
	}
	return a[s]
}

// expand sees through aliases and removes duplicates from interfaces.
func (a aliasTable) expand(m *MT) *MT {
	if m == nil {
		return nil
	}
	if m.K == KNamed {
		if t := a.get(m.Sym); t != nil {
			return a.expand(t)
		}
		return m
	}
	n := *m
	n.Elem, n.Key = a.expand(m.Elem), a.expand(m.Key)
	args := func(as []MArg) []MArg {
		var r []MArg
		for _, x := range as {
			r = append(r, MArg{x.Name, a.expand(x.T)})
		}
		return r
	}
	n.Args, n.Res = args(m.Args), args(m.Res)
	n.Fields = nil
	for _, f := range m.Fields {
		n.Fields = append(n.Fields, MField{f.Name, a.expand(f.T), f.Tag})
	}
	if m.K != KIface {
		return &n
	}
	n.Methods, n.Embeds = nil, nil
	seen := map[string]bool{}
	seenE := map[MSym]bool{}
	var add func(x *MT)
	add = func(x *MT) {
		for _, mm := range x.Methods {
			if !seen[mm.Name] {
				seen[mm.Name] = true
				n.Methods = append(n.Methods, MMethod{mm.Name, a.expand(mm.Sig)})
			}
		}
		for _, e := range x.Embeds {
			for {
				t := a.get(e)
				if t == nil {
					if !seenE[e] {
						seenE[e] = true
						n.Embeds = append(n.Embeds, e)
					}
					break
				}
				if t.K == KNamed {
					e = t.Sym
					continue
				}
				add(t)
				break
			}
		}
	}
	add(m)
	return &n
}

// wrapIfaces makes some interfaces get part of their content from an embedded
// unnamed interface.
func wrapIfaces(t R, m *MT) {
	m.Walk(func(n *MT) {
		if n.K == KIface && rP(t, 6) {
			n.Wrap = rInt(t, 0, len(n.Methods))
			n.WrapE = rInt(t, 0, len(n.Embeds))
			if rP(t, 4) {
				n.WrapO = rInt(t, 0, n.Wrap)
			}
			if rP(t, 2) {
				n.WrapN = rInt(t, 1, 2)
			}
		}
	})
}

var anyInfo = NamedInfo{Sym: MSym{Name: "any"}, Comparable: true, Alias: true}

type c03Env struct {
	pkgs  []*MPkg
	own   string
	gen   *TGen
	alias aliasTable
}

func newC03(t R) *c03Env {
	e := &c03Env{pkgs: genPkgs(t, 1, 4, false), own: rPick(t, []string{"p", "alpha", "main", "x_y"}), alias: aliasTable{}}
	named := append(append(allNamed(e.pkgs), predeclaredNamed...), unsafePointerInfo, anyInfo)
	e.gen = &TGen{R: t, Named: append(named, ownNamed(e.own)...), AnyTag: true, BigLen: true, Unexp: true, Depth: 3}
	return e
}

func (e *c03Env) same(t R, what string, got g.TypeName, want *MT) {
	FromG(got).Walk(func(n *MT) {
		seen := map[string]bool{}
		for _, m := range n.Methods {
			if seen[m.Name] {
				t.Fatalf("%s\nconverted: %s\nhas the method %s twice", what, got, m.Name)
			}
			seen[m.Name] = true
		}
	})
	gm, wm := e.alias.expand(FromG(got)), e.alias.expand(want)
	if gm.CanonQ() != wm.CanonQ() {
		t.Fatalf("%s\nconverted: %s\nexpected:  %s\n(rendered %s)", what, gm.CanonQ(), wm.CanonQ(), got)
	}
}

func TestC03(t *testing.T) {
	if shard() == 0 {
		c03Universe(t)
	}
	rapid.Check(t, func(t *rapid.T) {
		switch rWeighted(t, 6, 6, 1) {
		case 0:
			c03Programmatic(t)
		case 2:
			c03Constraint(t)
		default:
			c03Source(t)
		}
	})
}

// c03Universe: the predeclared objects and package unsafe, all of them.
func c03Universe(t *testing.T) {
	for _, n := range types.Universe.Names() {
		o := types.Universe.Lookup(n)
		if got := g.SymbolForGoObject(o); got != g.SymbolOrMethodRef(g.Symbol{Name: n}) {
			t.Fatalf("SymbolForGoObject(%v) = %#v", o, got)
		}
		ev.Evals++
		ev.Extra["universe-objects"]++
	}
	unsafePkg := g.Package{ImportPath: "unsafe", Name: "unsafe"}
	for _, n := range types.Unsafe.Scope().Names() {
		o := types.Unsafe.Scope().Lookup(n)
		if got := g.SymbolForGoObject(o); got != g.SymbolOrMethodRef(unsafePkg.Symbol(n)) {
			t.Fatalf("SymbolForGoObject(%v) = %#v", o, got)
		}
	}
	errM := types.Universe.Lookup("error").Type().Underlying().(*types.Interface).Method(0)
	if got := g.SymbolForGoObject(errM); got != g.SymbolOrMethodRef(g.MethodReference{Type: g.Symbol{Name: "error"}, Method: "Error"}) {
		t.Fatalf("SymbolForGoObject(%v) = %#v", errM, got)
	}
	if got := FromG(g.TypeNameForGoType(errM.Type())); got.CanonQ() != (&MT{K: KFunc, Res: []MArg{{"", &MT{K: KBasic, Basic: reflect.String}}}}).CanonQ() {
		t.Fatalf("type of error.Error converts to %s", got.CanonQ())
	}
	if got := g.PackageForGoType(types.Unsafe); got != unsafePkg {
		t.Fatalf("PackageForGoType(unsafe) = %#v", got)
	}
	if got := g.PackageForGoType(nil); got != (g.Package{}) {
		t.Fatalf("PackageForGoType(nil) = %#v", got)
	}
}

// c03Constraint: what has no counterpart is not taken for something else.
func c03Constraint(t R) {
	e := newC03(t)
	m := e.gen.Type()
	env := &goEnv{own: map[string]types.Type{}, names: map[string]string{}, pkg: types.NewPackage(ownPath, e.own)}
	for _, p := range e.pkgs {
		env.names[p.Path] = p.Name
	}
	for _, ni := range ownNamed(e.own) {
		env.own[ni.Sym.Name] = types.NewNamed(types.NewTypeName(token.NoPos, env.pkg, ni.Sym.Name, nil), types.Typ[types.Int], nil)
	}
	in := env.typ(m)
	var term types.Type
	kind := ""
	switch rInt(t, 0, 3) {
	case 0:
		kind, term = "tilde", types.NewUnion([]*types.Term{types.NewTerm(true, in.Underlying())})
	case 1:
		kind, term = "union", types.NewUnion([]*types.Term{types.NewTerm(false, types.Typ[types.Int]), types.NewTerm(false, in)})
	case 2:
		kind, term = "pointer", types.NewPointer(in)
	default:
		kind, term = "basic", types.Typ[rPick(t, []types.BasicKind{types.Int, types.String, types.Bool})]
	}
	if types.IsInterface(in) && kind != "basic" && kind != "pointer" {
		kind, term = "slice", types.NewSlice(in)
	}
	var ms []*types.Func
	if rP(t, 4) {
		ms = append(ms, types.NewFunc(token.NoPos, env.pkg, "M", env.sig(&MT{K: KFunc}, nil)))
	}
	embeds := []types.Type{term}
	if rP(t, 4) {
		embeds = append(embeds, types.Universe.Lookup("error").Type())
		if rP(t, 5) {
			embeds[0], embeds[1] = embeds[1], embeds[0]
		}
	}
	var ty types.Type = types.NewInterfaceType(ms, embeds).Complete()
	if rP(t, 3) {
		ty = types.NewInterfaceType(nil, []types.Type{ty}).Complete()
	}
	evCase("constraint "+kind+" of "+m.CanonQ(), true, "type set: "+kind)
	if panicked, _, _ := caught(func() {
		if got := g.TypeNameForGoType(ty); got != nil {
			t.Fatalf("%v converts to %v", ty, got)
		}
	}); !panicked {
		t.Fatalf("%v converts to nil", ty)
	}
}

func c03Programmatic(t R) {
	e := newC03(t)
	m := e.gen.Type()
	wrapIfaces(t, m)
	env := &goEnv{own: map[string]types.Type{}, names: map[string]string{}, pkg: types.NewPackage(ownPath, e.own)}
	for _, p := range e.pkgs {
		env.names[p.Path] = p.Name
	}
	for _, ni := range ownNamed(e.own) {
		var u types.Type = types.Typ[types.Int]
		if ni.Iface {
			u = types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, env.pkg, "MLI", env.sig(&MT{K: KFunc}, nil))}, nil).Complete()
		}
		env.own[ni.Sym.Name] = types.NewNamed(types.NewTypeName(token.NoPos, env.pkg, ni.Sym.Name, nil), u, nil)
	}
	// a local alias of anything
	al := MSym{ownPath, e.own, "AL"}
	e.alias[al] = m
	env.own["AL"] = types.NewAlias(types.NewTypeName(token.NoPos, env.pkg, "AL", nil), env.typ(m))
	m2 := m
	if rP(t, 4) {
		m2 = &MT{K: KMap, Key: &MT{K: KBasic, Basic: reflect.Int}, Elem: &MT{K: KNamed, Sym: al}}
	}
	sig := e.gen.Sig(1)
	ptr := rP(t, 8)
	rname := rPick(t, []string{"", "r", "_", "recv"})
	evCase("programmatic: "+m2.CanonQ()+" ;; "+sig.CanonQ()+fmt.Sprintf(" recv %q ptr %v", rname, ptr), m.Depth() >= 2,
		append(typeClasses(m), "route:programmatic", cond(m2 != m, "via-alias"))...)
	mustNot(t, "TypeNameForGoType of "+m2.CanonQ(), func() {
		e.same(t, "type built with go/types", g.TypeNameForGoType(env.typ(m2)), m2)
	})
	// a method's signature gains its receiver
	recvM := &MT{K: KNamed, Sym: MSym{ownPath, e.own, "L0"}}
	var recv types.Type = env.own["L0"]
	if ptr {
		recv, recvM = types.NewPointer(recv), &MT{K: KPtr, Elem: recvM}
	}
	fn := types.NewFunc(token.NoPos, env.pkg, "Meth", env.sig(sig, types.NewParam(token.NoPos, env.pkg, rname, recv)))
	want := *sig
	want.Args = append([]MArg{{rname, recvM}}, sig.Args...)
	mustNot(t, "conversion of method "+fn.String(), func() {
		e.same(t, "type of method "+fn.String(), g.TypeNameForGoType(fn.Type()), &want)
		ref := g.SymbolForGoObject(fn)
		if ref != g.SymbolOrMethodRef(g.MethodReference{Type: MSym{ownPath, e.own, "L0"}.G(), Method: "Meth"}) {
			t.Fatalf("method %v converts to %#v", fn, ref)
		}
	})
}

// c03Source converts the objects of a type-checked package.
func c03Source(t R) {
	e := newC03(t)
	var src strings.Builder
	fmt.Fprintf(&src, "package %s\n\nimport \"unsafe\"\n\nvar _ unsafe.Pointer\n", e.own)
	quals := map[string]string{"unsafe": "unsafe.", ownPath: ""}
	for i, p := range e.pkgs {
		quals[p.Path] = fmt.Sprintf("q%d.", i)
		fmt.Fprintf(&src, "import q%d %q\n\nvar _ q%d.T0\n", i, p.Path, i)
	}
	text := src.String() // imports must come first: sort below
	var imports, rest []string
	for _, l := range strings.Split(text, "\n")[1:] {
		if strings.HasPrefix(l, "import ") {
			imports = append(imports, l)
		} else {
			rest = append(rest, l)
		}
	}
	src.Reset()
	src.WriteString("package " + e.own + "\n" + strings.Join(imports, "\n") + "\n" + strings.Join(rest, "\n") + "\n" + ownNamedSrc)
	q := func(path string) string {
		s, ok := quals[path]
		if !ok {
			harnessBug("no qualifier for %s", path)
		}
		return s
	}
	type want struct {
		typ    *MT // converted type of the object, nil = do not convert
		method *MSym
	}
	wants := map[string]want{}
	var order []string
	add := func(name string, w want) { wants[name] = w; order = append(order, name) }
	own := func(n string) MSym { return MSym{ownPath, e.own, n} }
	// local aliases first, usable by what follows
	for i := rInt(t, 0, 2); i > 0; i-- {
		m := e.gen.Type()
		wrapIfaces(t, m)
		n := fmt.Sprintf("AL%d", i)
		fmt.Fprintf(&src, "type %s = %s\n", n, m.Src(q))
		e.alias[own(n)] = m
		e.gen.Named = append(e.gen.Named, NamedInfo{Sym: own(n), Exported: true, Alias: true})
		add(n, want{typ: &MT{K: KNamed, Sym: own(n)}})
	}
	// the receiver may be spelled through an alias
	src.WriteString("type ALrecv = L0\n")
	e.alias[own("ALrecv")] = &MT{K: KNamed, Sym: own("L0")}
	var classes []string
	depth := 0
	n := rInt(t, 1, 3)
	var methods []struct {
		recv, name string
		sig        *MT
		ptr        bool
		rname      string
	}
	for i := 0; i < n; i++ {
		m := e.gen.Type()
		wrapIfaces(t, m)
		classes = append(classes, typeClasses(m)...)
		if m.Depth() > depth {
			depth = m.Depth()
		}
		switch rInt(t, 0, 4) {
		case 0:
			nm := fmt.Sprintf("V%d", i)
			fmt.Fprintf(&src, "var %s %s\n", nm, m.Src(q))
			add(nm, want{typ: m})
		case 1:
			nm := fmt.Sprintf("N%d", i)
			fmt.Fprintf(&src, "type %s %s\n", nm, m.Src(q))
			add(nm, want{typ: &MT{K: KNamed, Sym: own(nm)}})
		case 2:
			nm := fmt.Sprintf("F%d", i)
			s := e.gen.Sig(1)
			var b strings.Builder
			s.srcSig(&b, q)
			fmt.Fprintf(&src, "func %s%s { panic(0) }\n", nm, b.String())
			add(nm, want{typ: s})
		case 3:
			s := e.gen.Sig(1)
			var b strings.Builder
			s.srcSig(&b, q)
			rn := "zrecv"
			if allUnnamed(s.Args) || rP(t, 4) {
				rn = rPick(t, []string{"", "zrecv", "_"})
			}
			ptr := rP(t, 8)
			rt := rPick(t, []string{"L0", "L1", "ALrecv"})
			star := ""
			if ptr {
				star = "*"
			}
			name := fmt.Sprintf("Meth%d", i)
			fmt.Fprintf(&src, "func (%s %s%s) %s%s { panic(0) }\n", rn, star, rt, name, b.String())
			methods = append(methods, struct {
				recv, name string
				sig        *MT
				ptr        bool
				rname      string
			}{rt, name, s, ptr, rn})
		default:
			nm := fmt.Sprintf("C%d", i)
			fmt.Fprintf(&src, "const %s int32 = %d\n", nm, i)
			add(nm, want{typ: &MT{K: KBasic, Basic: reflect.Int32}})
		}
	}
	// a named interface with methods of its own and an embedded one
	im := e.gen.Sig(1)
	var b strings.Builder
	im.srcSig(&b, q)
	fmt.Fprintf(&src, "type ZI interface { LI; ZMeth%s }\n", b.String())
	evCase("source:\n"+src.String(), depth >= 2, append(classes, "route:source", cond(len(methods) > 0, "has-method"), cond(len(e.alias) > 1, "has-local-alias"))...)
	c := typecheck(newWorld(e.pkgs), ownPath, src.String())
	if len(c.errs) > 0 {
		harnessBug("generated source does not check: %v\n%s", c.errs, numbered(src.String()))
	}
	mustNot(t, "conversion of the objects of\n"+numbered(src.String()), func() {
		if got := g.PackageForGoType(c.pkg); got != (g.Package{ImportPath: ownPath, Name: e.own}) {
			t.Fatalf("package converts to %#v", got)
		}
		for _, p := range e.pkgs {
			if got := g.PackageForGoType(uniformPkg(p.Path, p.Name)); got != (g.Package{ImportPath: p.Path, Name: p.Name}) {
				t.Fatalf("package %s converts to %#v", p.Path, got)
			}
		}
		sort.Strings(order)
		for _, n := range order {
			w := wants[n]
			o := c.pkg.Scope().Lookup(n)
			if got := g.SymbolForGoObject(o); got != g.SymbolOrMethodRef(own(n).G()) {
				t.Fatalf("object %v converts to %#v", o, got)
			}
			e.same(t, "type of "+o.String(), g.TypeNameForGoType(o.Type()), w.typ)
			// the type expression itself, where there is one
			if _, ok := o.(*types.TypeName); ok {
				for _, d := range c.files[0].Decls {
					if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE && gd.Specs[0].(*ast.TypeSpec).Name.Name == n && e.alias[own(n)] != nil {
						e.same(t, "what alias "+n+" stands for", g.TypeNameForGoType(c.info.TypeOf(gd.Specs[0].(*ast.TypeSpec).Type)), e.alias[own(n)])
					}
				}
			}
		}
		for _, m := range methods {
			base := m.recv
			if base == "ALrecv" {
				base = "L0"
			}
			nt := c.pkg.Scope().Lookup(base).Type().(*types.Named)
			for i := 0; i < nt.NumMethods(); i++ {
				fn := nt.Method(i)
				if fn.Name() != m.name {
					continue
				}
				if got := g.SymbolForGoObject(fn); got != g.SymbolOrMethodRef(g.MethodReference{Type: own(base).G(), Method: m.name}) {
					t.Fatalf("method %v converts to %#v", fn, got)
				}
				rt := &MT{K: KNamed, Sym: own(base)}
				if m.ptr {
					rt = &MT{K: KPtr, Elem: rt}
				}
				want := *m.sig
				want.Args = append([]MArg{{m.rname, rt}}, m.sig.Args...)
				e.same(t, "type of method "+fn.String(), g.TypeNameForGoType(fn.Type()), &want)
			}
		}
		iface := c.pkg.Scope().Lookup("ZI").Type().Underlying().(*types.Interface)
		zi := iface.ExplicitMethod(0)
		if got := g.SymbolForGoObject(zi); got != g.SymbolOrMethodRef(g.MethodReference{Type: own("ZI").G(), Method: "ZMeth"}) {
			t.Fatalf("interface method %v converts to %#v", zi, got)
		}
		e.same(t, "type of interface method "+zi.String(), g.TypeNameForGoType(zi.Type()), im)
		mli := c.pkg.Scope().Lookup("LI").Type().Underlying().(*types.Interface).Method(0)
		if got := g.SymbolForGoObject(mli); got != g.SymbolOrMethodRef(g.MethodReference{Type: own("LI").G(), Method: "MLI"}) {
			t.Fatalf("interface method %v converts to %#v", mli, got)
		}
		// methods and members of the other packages
		p := rPick(t, e.pkgs)
		up := uniformPkg(p.Path, p.Name)
		t0 := up.Scope().Lookup("T0").Type().(*types.Named)
		for i := 0; i < t0.NumMethods(); i++ {
			fn := t0.Method(i)
			if got := g.SymbolForGoObject(fn); got != g.SymbolOrMethodRef(g.MethodReference{Type: g.Symbol{Name: "T0", Package: g.Package{ImportPath: p.Path, Name: p.Name}}, Method: fn.Name()}) {
				t.Fatalf("method %v converts to %#v", fn, got)
			}
		}
		for _, n := range up.Scope().Names() {
			if got := g.SymbolForGoObject(up.Scope().Lookup(n)); got != g.SymbolOrMethodRef(MSym{p.Path, p.Name, n}.G()) {
				t.Fatalf("%s.%s converts to %#v", p.Path, n, got)
			}
		}
	})
}

func allUnnamed(as []MArg) bool {
	for _, a := range as {
		if a.Name != "" {
			return false
		}
	}
	return true
}
