package harness

import (
	"fmt"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

const ownPath = "own.example/gen/p"

// ownNamed are types the case's own package declares.
var ownNamedSrc = "type L0 struct{ Q int }\ntype L1 string\ntype LI interface{ MLI() }\ntype lö []int\n"

func ownNamed(pkgName string) []NamedInfo {
	s := func(n string) MSym { return MSym{ownPath, pkgName, n} }
	return []NamedInfo{
		{Sym: s("L0"), Comparable: true, Embeddable: true, Exported: true},
		{Sym: s("L1"), Comparable: true, Embeddable: true, Exported: true},
		{Sym: s("LI"), Comparable: true, Embeddable: true, Iface: true, Exported: true, ValMethods: []string{"MLI"}},
		{Sym: s("lö"), Embeddable: true},
	}
}

func typeClasses(m *MT) []string {
	var cs []string
	m.Walk(func(n *MT) {
		cs = append(cs, "has:"+n.K.String())
		switch n.K {
		case KChan:
			cs = append(cs, cond(n.Elem.K == KChan, "chan-of-chan"))
		case KFunc:
			cs = append(cs, cond(n.Var, "variadic"))
		case KStruct:
			for _, f := range n.Fields {
				cs = append(cs, cond(f.Tag != "", "tag"), cond(f.Name == "", "embedded-field"))
			}
		case KIface:
			cs = append(cs, cond(len(n.Embeds) > 0 && len(n.Methods) > 0, "embeds+methods"))
		}
	})
	return append(cs, fmt.Sprintf("depth:%d", m.Depth()))
}

// TestC01 checks both the bare rendering of a type and every slot of a file a
// type is printed in.
func TestC01(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		if rP(t, 8) {
			c01String(t)
		} else {
			c01File(t)
		}
	})
}

func c01String(t R) {
	pkgs := genPkgs(t, 1, 4, false)
	names := map[string]string{} // path -> qualifier used in this case
	used := map[string]bool{}
	for _, p := range pkgs {
		n := p.Name
		for i := 0; used[n]; i++ {
			n = fmt.Sprintf("%s_%d", p.Name, i)
		}
		used[n] = true
		names[p.Path] = n
	}
	gen := &TGen{R: t, Named: append(append(allNamed(pkgs), predeclaredNamed...), append(ownNamed(""), unsafePointerInfo)...), AnyTag: true, BigLen: true, Unexp: true}
	m := gen.Type().MapSyms(func(s MSym) MSym {
		if n, ok := names[s.Path]; ok {
			s.PkgName = n
		}
		return s
	})
	if m.Depth() < 2 {
		m = &MT{K: KChan, Dir: gen.dir(), Elem: m}
	}
	evCase("string: "+m.CanonQ(), m.Depth() >= 2, append(typeClasses(m), "route:String")...)
	var text string
	mustNot(t, "String of "+m.CanonQ(), func() { text = m.G().String() })
	var src strings.Builder
	src.WriteString("package p\n\nimport \"unsafe\"\n")
	for _, p := range pkgs {
		fmt.Fprintf(&src, "import %s %q\n", names[p.Path], p.Path)
	}
	src.WriteString(ownNamedSrc + "var _ unsafe.Pointer\n")
	for _, p := range pkgs {
		fmt.Fprintf(&src, "var _ %s.T0\n", names[p.Path])
	}
	src.WriteString("var V " + text + "\n")
	c := typecheck(newWorld(pkgs), ownPath, src.String())
	if len(c.errs) > 0 {
		t.Fatalf("type renders as text that does not compile: %s\nmodel: %s\nerrors: %v", text, m.CanonQ(), c.errs)
	}
	got := FromGo(c.declType("V"), false)
	if got.Canon(true) != m.Canon(true) {
		t.Fatalf("type renders as %s\nmodel:  %s\nparsed: %s", text, m.Canon(true), got.Canon(true))
	}
}

func c01File(t R) {
	pkgs := genPkgs(t, 1, 4, false)
	gen := &TGen{R: t, Named: append(append(allNamed(pkgs), predeclaredNamed...), append(ownNamed("p"), unsafePointerInfo)...), AnyTag: true, BigLen: true, Unexp: true, Blank: 3, Depth: 3}
	m := gen.Type()
	sig := gen.Sig(2)
	tag := ""
	if rP(t, 10) {
		tag = gen.Tag()
	}
	evCase(fmt.Sprintf("file: %s ;; %s ;; %q", m.CanonQ(), sig.CanonQ(), tag), m.Depth() >= 2, append(typeClasses(m), "route:file")...)
	var f *g.GoFile
	mustNot(t, "building", func() {
		f = g.NewGoFile("f.go", ownPath, "p")
		f.AddVar(g.NewVar("V").SetType(m.G()))
		f.AddVar(g.NewVar("V2").SetType(g.NewTypeSpec("", m.G())))
		f.AddType(g.NewTypeSpec("D", m.G()))
		f.AddType(g.NewTypeAlias("E", m.G()))
		f.AddType(g.NewStructTypeSpec("S", g.NewField("F0", m.G()).SetTag(tag), g.NewField("F1", g.NewTypeSpec("", m.G())).SetTag(tag), g.NewField("F2", m.G())))
		im := g.NewInterfaceMethod("Im")
		im.Signature = *sig.GSig()
		f.AddType(g.NewInterfaceTypeSpec("I", im))
		f.AddVar(g.NewVar("Fv").SetType(g.FuncTypeFromSig(sig.GSig())))
		fn := g.NewFunc("Fn").Println("panic(0)")
		fn.Signature = *sig.GSig()
		f.AddElement(fn)
	})
	src := mustRender(t, f, "file with type "+m.CanonQ())
	c := typecheck(newWorld(pkgs), ownPath, src, "package p\n"+ownNamedSrc)
	if len(c.errs) > 0 {
		t.Fatalf("file does not compile: %v\n%s", c.errs, numbered(src))
	}
	same := func(where string, got, want *MT) {
		if got.Canon(true) != want.Canon(true) {
			t.Fatalf("%s\nmodel:  %s\nparsed: %s\n%s", where, want.Canon(true), got.Canon(true), numbered(src))
		}
	}
	for _, n := range []string{"V", "V2", "D", "E"} {
		dt := c.declType(n)
		if dt == nil {
			t.Fatalf("%s is not declared with a type\n%s", n, numbered(src))
		}
		same(n, FromGo(dt, false), m)
	}
	st := c.structOf("S")
	if st == nil || st.NumFields() != 3 {
		t.Fatalf("struct S does not have its three fields\n%s", numbered(src))
	}
	for i := 0; i < 3; i++ {
		same("field "+st.Field(i).Name(), FromGo(st.Field(i).Type(), false), m)
		want := tag
		if i == 2 {
			want = ""
		}
		if st.Tag(i) != want || st.Field(i).Name() != fmt.Sprintf("F%d", i) || st.Field(i).Embedded() {
			t.Fatalf("field %d is %s tag %q, want tag %q\n%s", i, st.Field(i), st.Tag(i), want, numbered(src))
		}
	}
	im := FromGo(c.declType("I"), false)
	same("interface method", im, &MT{K: KIface, Methods: []MMethod{{"Im", sig}}})
	same("func type", FromGo(c.declType("Fv"), false), sig)
	same("func", FromGo(c.pkg.Scope().Lookup("Fn").Type(), false), sig)
}
