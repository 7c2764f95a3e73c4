package harness

import (
	"fmt"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// eFile is the reference of a file.
type eFile struct {
	gf         *g.GoFile
	path, name string
}

// eSpec is the reference of a const, var or type element.
type eSpec struct {
	kind  int
	names []string // one for a type, "" for an unnamed one
	file  *eFile   // nil while not added
	decl  *eDecl
	c     *g.ConstSpec
	v     *g.VarSpec
	t     *g.TypeSpec
	alias bool
	under func(s *eSpec) string // what is wrong with the underlying type
}

type eDecl struct {
	kind  int
	specs []*eSpec
	file  *eFile
	c     *g.ConstDecl
	v     *g.VarDecl
	t     *g.TypeDecl
}

func (s *eSpec) desc() string {
	return fmt.Sprintf("%s %q", [...]string{"const", "var", "type"}[s.kind], strings.Join(s.names, ","))
}

// check compares every answer of the element with the reference.
func (s *eSpec) check() string {
	var str fmt.Stringer
	var sym func() g.Symbol
	var at func(i int) g.Symbol
	switch s.kind {
	case EConst:
		str, sym, at = s.c, s.c.ToSymbol, s.c.SymbolAt
	case EVar:
		str, sym, at = s.v, s.v.ToSymbol, s.v.SymbolAt
	default:
		str, sym = s.t, s.t.ToSymbol
	}
	symbol := func(n string) g.Symbol {
		return g.Symbol{Name: n, Package: g.Package{Name: s.file.name, ImportPath: s.file.path}}
	}
	text := func(n string) string {
		if s.file == nil {
			return n
		}
		if s.file.name == "" {
			return n
		}
		return s.file.name + "." + n
	}
	unnamed := s.kind == EType && s.names[0] == ""
	// string
	var want []string
	for _, n := range s.names {
		want = append(want, text(n))
	}
	w := strings.Join(want, ", ")
	if unnamed {
		w = s.t.Underlying().String()
	}
	var got string
	if p, v := panics(func() { got = str.String() }); p {
		return fmt.Sprintf("its string form panics: %v", v)
	}
	if got != w {
		return fmt.Sprintf("its string form is %q, want %q", got, w)
	}
	// fmt.Sprint uses it
	if g2 := fmt.Sprintf("%v|%s", str, str); g2 != w+"|"+w {
		return fmt.Sprintf("formatting it gives %q, want %q twice", g2, w)
	}
	// symbol
	must := func(what string, wantSym g.Symbol, refused bool, f func() g.Symbol) string {
		var got g.Symbol
		p, v := panics(func() { got = f() })
		switch {
		case p && !refused:
			return fmt.Sprintf("%s panics: %v", what, v)
		case !p && refused:
			return fmt.Sprintf("%s gives %#v, it should panic", what, got)
		case !p && got != wantSym:
			return fmt.Sprintf("%s is %#v, want %#v", what, got, wantSym)
		}
		return ""
	}
	refused := s.file == nil || len(s.names) != 1 || unnamed
	var ws g.Symbol
	if !refused {
		ws = symbol(s.names[0])
	}
	if m := must("ToSymbol", ws, refused, sym); m != "" {
		return m
	}
	if at != nil {
		for i := -1; i <= len(s.names); i++ {
			bad := i < 0 || i == len(s.names)
			var ws g.Symbol
			if !bad && s.file != nil {
				ws = symbol(s.names[i])
			}
			i := i
			if m := must(fmt.Sprintf("SymbolAt(%d)", i), ws, bad || s.file == nil, func() g.Symbol { return at(i) }); m != "" {
				return m
			}
		}
		return ""
	}
	// types
	if s.t.IsAlias() != s.alias {
		return fmt.Sprintf("IsAlias is %v", s.t.IsAlias())
	}
	if m := s.under(s); m != "" {
		return m
	}
	var tn g.TypeName
	p, v := panics(func() { tn = s.t.ToTypeName() })
	switch {
	case unnamed:
		if p {
			return fmt.Sprintf("ToTypeName of the unnamed type panics: %v", v)
		}
		if a, b := FromG(tn).CanonQ(), FromG(s.t.Underlying()).CanonQ(); a != b {
			return fmt.Sprintf("ToTypeName of the unnamed type is %s, its underlying type %s", a, b)
		}
	case s.file == nil:
		if !p {
			return fmt.Sprintf("ToTypeName gives %s, it should panic", tn)
		}
	case p:
		return fmt.Sprintf("ToTypeName panics: %v", v)
	default:
		if m := accessors(tn, &MT{K: KNamed, Sym: symFromG(symbol(s.names[0]))}, "its type name"); m != "" {
			return m
		}
	}
	return ""
}

func underIs(m *MT) func(*eSpec) string {
	return func(s *eSpec) string { return accessors(s.t.Underlying(), m, "its underlying type") }
}

type c19 struct {
	t     R
	gen   *TGen
	files []*eFile
	specs []*eSpec
	decls []*eDecl
	hist  []string
	feats map[string]bool
}

func (c *c19) log(f string, a ...any) { c.hist = append(c.hist, fmt.Sprintf(f, a...)) }

var c19names = []string{"A", "b", "_", "Ünï", "T0", "string", "x1", "Foo", "error"}

func (c *c19) newSpec() {
	t := c.t
	s := &eSpec{kind: rInt(t, 0, 2)}
	switch s.kind {
	case EConst, EVar:
		for i := rSize(t, 14, 1, 1, 1, 2, 3, 4, 0); i > 0; i-- {
			s.names = append(s.names, rPick(t, c19names))
		}
		if s.kind == EConst {
			s.c = g.NewConst(s.names...)
			if rP(t, 4) {
				s.c.SetType(g.IntType)
			}
			if rP(t, 4) {
				s.c.Initialize("%d", 1)
			}
			if rP(t, 2) {
				s.c = &g.ConstSpec{Names: append([]string(nil), s.names...)}
			}
		} else {
			s.v = g.NewVar(s.names...)
			s.v.SetType(c.gen.Small().G())
			if rP(t, 2) {
				s.v = &g.VarSpec{Names: append([]string(nil), s.names...), Type: g.IntType}
			}
		}
		// the element's own copy, independent of the reference
		s.names = append([]string(nil), s.names...)
		if len(s.names) != 1 {
			c.feats["multi-name"] = true
		}
	default:
		c.typeSpec(s)
	}
	c.specs = append(c.specs, s)
	c.log("new %s", s.desc())
}

// typeSpec makes a type element in one of the ways there are.
func (c *c19) typeSpec(s *eSpec) {
	t := c.t
	n := rPick(t, c19names)
	if rP(t, 4) {
		n = ""
		c.feats["unnamed-type"] = true
	}
	s.names = []string{n}
	how := rInt(t, 0, 6)
	c.feats["type-from:"+[...]string{"type", "alias", "fields", "elements", "unnamed-spec", "named-spec", "alias-of-spec"}[how]] = true
	switch how {
	case 0:
		m := c.gen.Type()
		s.t, s.under = g.NewTypeSpec(n, m.G()), underIs(m)
	case 1:
		m := c.gen.Type()
		s.t, s.under, s.alias = g.NewTypeAlias(n, m.G()), underIs(m), true
	case 2:
		m := c.gen.Struct(1, false)
		var fs []*g.FieldSpec
		for _, f := range m.Fields {
			var ft g.TypeNameOrSpec = f.T.G()
			if rP(t, 5) && f.Name != "" {
				ft = g.NewTypeSpec("", f.T.G())
			}
			fs = append(fs, g.NewField(f.Name, ft).SetTag(f.Tag))
			if got := fs[len(fs)-1].String(); got != f.Name {
				t.Fatalf("the string form of field %q is %q", f.Name, got)
			}
		}
		s.t, s.under = g.NewStructTypeSpec(n, fs...), underIs(m)
	case 3:
		m := c.gen.Iface(1)
		els := ifaceElems(m)
		s.t, s.under = g.NewInterfaceTypeSpec(n, els...), underIs(m)
		for i, e := range m.Embeds {
			if got := els[i].(*g.InterfaceEmbed).String(); got != e.G().String() || got != cond(e.PkgName != "", e.PkgName+".")+e.Name {
				t.Fatalf("the string form of embedded interface %v is %q", e, got)
			}
		}
		for i, x := range m.Methods {
			if got := els[len(m.Embeds)+i].(*g.InterfaceMethod).String(); got != x.Name {
				t.Fatalf("the string form of interface method %q is %q", x.Name, got)
			}
		}
	case 4:
		m := c.gen.Type()
		s.t, s.under = g.NewTypeSpec(n, g.NewTypeSpec("", m.G())), underIs(m)
		if rP(t, 8) {
			s.t, s.alias = g.NewTypeAlias(n, g.NewTypeSpec("", m.G())), true
		}
	default:
		var cand []*eSpec
		for _, o := range c.specs {
			if o.kind == EType && o.file != nil && o.names[0] != "" {
				cand = append(cand, o)
			}
		}
		if len(cand) == 0 {
			m := c.gen.Small()
			s.t, s.under = g.NewTypeSpec(n, m.G()), underIs(m)
			return
		}
		o := rPick(t, cand)
		m := &MT{K: KNamed, Sym: MSym{Path: o.file.path, PkgName: o.file.name, Name: o.names[0]}}
		mk := g.NewTypeSpec
		if how == 6 {
			mk, s.alias = g.NewTypeAlias, true
		}
		s.t, s.under = mk(n, o.t), underIs(m)
	}
}

// ifaceElems makes the elements of an interface.
func ifaceElems(m *MT) []g.InterfaceElement {
	var es []g.InterfaceElement
	for _, e := range m.Embeds {
		es = append(es, g.NewInterfaceEmbed(e.G()))
	}
	for _, mm := range m.Methods {
		es = append(es, ifaceMethod(mm.Name, mm.Sig.GSig()))
	}
	return es
}

func ifaceMethod(name string, sig *g.Signature) *g.InterfaceMethod {
	x := g.NewInterfaceMethod(name)
	for _, a := range sig.Args {
		same(x, x.AddArg(a.Name, a.Type))
	}
	for _, a := range sig.Results {
		same(x, x.AddResult(a.Name, a.Type))
	}
	return x.SetVariadic(sig.IsVariadic)
}

// free lists the specs of a kind that are neither added nor in a group.
func (c *c19) free(kind int) []*eSpec {
	var r []*eSpec
	for _, s := range c.specs {
		if s.file == nil && s.decl == nil && (kind < 0 || s.kind == kind) {
			r = append(r, s)
		}
	}
	return r
}

func (c *c19) step() bool {
	t := c.t
	switch rWeighted(t, 5, 3, 3, 4, 4, 1, 1, 1, 1, 1) {
	case 0:
		c.newSpec()
	case 1: // a group made with some elements
		d := &eDecl{kind: rInt(t, 0, 2)}
		for _, s := range c.free(d.kind) {
			if rP(t, 8) {
				d.specs = append(d.specs, s)
				s.decl = d
			}
		}
		var cs []*g.ConstSpec
		var vs []*g.VarSpec
		var ts []*g.TypeSpec
		for _, s := range d.specs {
			switch s.kind {
			case EConst:
				cs = append(cs, s.c)
			case EVar:
				vs = append(vs, s.v)
			default:
				ts = append(ts, s.t)
			}
		}
		switch d.kind {
		case EConst:
			d.c = g.NewConstDecl(cs...)
		case EVar:
			d.v = g.NewVarDecl(vs...)
		default:
			d.t = g.NewTypeDecl(ts...)
		}
		c.decls = append(c.decls, d)
		c.log("group of %d %d", d.kind, len(d.specs))
	case 2: // add to a group
		var ds []*eDecl
		for _, d := range c.decls {
			if d.file == nil && len(c.free(d.kind)) > 0 {
				ds = append(ds, d)
			}
		}
		if len(ds) == 0 {
			return false
		}
		d := rPick(t, ds)
		s := rPick(t, c.free(d.kind))
		d.specs = append(d.specs, s)
		s.decl = d
		switch d.kind {
		case EConst:
			same(d.c, d.c.AddConst(s.c))
		case EVar:
			same(d.v, d.v.AddVar(s.v))
		default:
			same(d.t, d.t.AddType(s.t))
		}
		c.log("%s into a group", s.desc())
	case 3: // add a group to a file
		var ds []*eDecl
		for _, d := range c.decls {
			if d.file == nil {
				ds = append(ds, d)
			}
		}
		if len(ds) == 0 {
			return false
		}
		d := rPick(t, ds)
		f := rPick(t, c.files)
		d.file = f
		for _, s := range d.specs {
			s.file = f
		}
		switch d.kind {
		case EConst:
			same(f.gf, f.gf.AddElement(d.c))
		case EVar:
			same(f.gf, f.gf.AddElement(d.v))
		default:
			same(f.gf, f.gf.AddElement(d.t))
		}
		c.feats["grouped"] = true
		c.log("group of %d %d into %s", d.kind, len(d.specs), f.path)
	case 4: // add an element to a file
		fr := c.free(-1)
		if len(fr) == 0 {
			return false
		}
		s := rPick(t, fr)
		f := rPick(t, c.files)
		s.file = f
		switch s.kind {
		case EConst:
			same(f.gf, f.gf.AddConst(s.c))
		case EVar:
			same(f.gf, f.gf.AddVar(s.v))
		default:
			same(f.gf, f.gf.AddType(s.t))
		}
		c.feats["single"] = true
		c.log("%s into %s", s.desc(), f.path)
	case 5: // the package of a file gets another name
		f := rPick(t, c.files)
		n := rPick(t, []string{"p", "q", "main", "alpha"})
		for _, o := range c.files {
			if o.path == f.path {
				o.name = n
				o.gf.PackageName = n
			}
		}
		c.feats["package-renamed"] = true
		c.log("package %s renamed %s", f.path, n)
	case 6: // an element gets another name
		var named []*eSpec
		for _, s := range c.specs {
			if len(s.names) > 0 && s.names[0] != "" {
				named = append(named, s)
			}
		}
		if len(named) == 0 {
			return false
		}
		s := rPick(t, named)
		i := rInt(t, 0, len(s.names)-1)
		n := rPick(t, c19names)
		c.log("%s renamed %d %s", s.desc(), i, n)
		s.names[i] = n
		switch s.kind {
		case EConst:
			s.c.Names[i] = n
		case EVar:
			s.v.Names[i] = n
		default:
			s.t.Name = n
		}
		c.feats["element-renamed"] = true
	case 7: // comments and types are no matter
		if len(c.specs) == 0 {
			return false
		}
		s := rPick(t, c.specs)
		switch s.kind {
		case EConst:
			s.c.SetComment("c").SetType(g.IntType).Initialize("1")
		case EVar:
			s.v.SetComment("c").SetType(g.StringType)
		default:
			s.t.SetComment("c")
		}
	case 8: // something already in a file is added again, to that or another
		var ss []*eSpec
		for _, s := range c.specs {
			if s.file != nil {
				ss = append(ss, s)
			}
		}
		if len(ss) == 0 {
			return false
		}
		s := rPick(t, ss)
		f := rPick(t, c.files)
		if f.path != s.file.path {
			c.feats["moved"] = true
		}
		if d := s.decl; d != nil && rP(t, 5) {
			for _, s := range d.specs {
				s.file = f
			}
			switch d.kind {
			case EConst:
				f.gf.AddElement(d.c)
			case EVar:
				f.gf.AddElement(d.v)
			default:
				f.gf.AddElement(d.t)
			}
			c.log("group with %s again, into %s", s.desc(), f.path)
			return true
		}
		s.file = f
		switch s.kind {
		case EConst:
			f.gf.AddConst(s.c)
		case EVar:
			f.gf.AddVar(s.v)
		default:
			f.gf.AddType(s.t)
		}
		c.log("%s again, into %s", s.desc(), f.path)
	default: // rendering is no matter, whatever becomes of it
		f := rPick(t, c.files)
		panics(func() { render(f.gf) })
		c.log("render %s", f.path)
	}
	return true
}

func TestC19(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		c := &c19{t: t, feats: map[string]bool{}}
		c.gen = &TGen{R: t, Named: append(allNamed(genPkgs(t, 1, 3, false)), predeclaredNamed...), AnyTag: true, Unexp: true, Blank: 3, Depth: 2}
		for i := rInt(t, 1, 3); i > 0; i-- {
			f := &eFile{path: rPick(t, []string{"ex.com/p", "ex.com/q/v2", "", "main"}), name: rPick(t, []string{"p", "q", "main", "other"})}
			for _, o := range c.files {
				if o.path == f.path && rP(t, 6) {
					f.name = o.name // else like that of an external test
				}
			}
			f.gf = g.NewGoFile(fmt.Sprintf("f%d.go", i), f.path, f.name)
			if rP(t, 5) {
				f.gf.CanonicalImportPath = rPick(t, []string{"ex.com/canonical", f.path, "ex.com/p"})
				f.gf.FileComment, f.gf.PackageComment = "about the file", "about the package"
			}
			c.files = append(c.files, f)
		}
		msg := ""
		for i := rInt(t, 3, 30); i > 0 && msg == ""; i-- {
			if !c.step() {
				continue
			}
			for _, s := range c.specs {
				if msg = s.check(); msg != "" {
					msg = s.desc() + ": " + msg
					break
				}
			}
		}
		added := 0
		for _, s := range c.specs {
			if s.file != nil {
				added++
			}
		}
		var cl []string
		for f := range c.feats {
			cl = append(cl, f)
		}
		evCase(strings.Join(c.hist, "; "), added > 0, cl...)
		if msg != "" {
			t.Fatalf("after %s:\n%s", strings.Join(c.hist, "; "), msg)
		}
	})
}
