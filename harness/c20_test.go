package harness

import (
	"fmt"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// c20Recv makes a receiver in one of the ways there are; nil if it has to be
// refused, with want telling why.
type c20Recv struct {
	name, typ string
	ptr       bool
	refuse    string
	how       string
	mk        func() *g.ReceiverSpec
}

var c20RecvNames = []string{"", "r", "_", "recv", "a", "ärg"}
var c20TypeNames = []string{"T", "recvT", "Ünï", "T0", "x1"}

func (c *c20) recv(valid bool) *c20Recv {
	t := c.t
	r := &c20Recv{name: rPick(t, c20RecvNames), typ: rPick(t, c20TypeNames)}
	if rP(t, 1) {
		r.name = r.typ
	}
	nameOr := func() string {
		if !valid && rP(t, 4) {
			r.refuse = "no type name"
			return ""
		}
		return r.typ
	}
	// a type name, pointer to one, or something else
	typeName := func(ptrOK bool) g.TypeName {
		sym := MSym{Path: c.file.path, PkgName: c.file.name, Name: r.typ}
		if rP(t, 3) {
			sym.PkgName = ""
		}
		m := &MT{K: KNamed, Sym: sym, Route: rInt(t, 0, 1)}
		if valid || rP(t, 8) {
			if ptrOK && rP(t, 7) {
				r.ptr = true
				m = &MT{K: KPtr, Elem: m}
			}
			return m.G()
		}
		for {
			m = c.gen.Type()
			if rP(t, 8) {
				m = &MT{K: KPtr, Elem: m}
			}
			if m.K != KNamed && !(ptrOK && m.K == KPtr && m.Elem.K == KNamed) {
				break
			}
			m = &MT{K: KSlice, Elem: m}
			break
		}
		r.refuse = "unnamed type " + m.Canon(true)
		return m.G()
	}
	spec := func() *g.TypeSpec {
		n := r.typ
		if !valid && rP(t, 5) {
			n = ""
			r.refuse = "unnamed type element"
		}
		var ts *g.TypeSpec
		if rP(t, 8) {
			u := c.gen.Small()
			if rP(t, 4) {
				u = &MT{K: KPtr, Elem: u}
			}
			ts = g.NewTypeSpec(n, u.G())
			if rP(t, 4) {
				ts = g.NewTypeAlias(n, u.G())
			}
		} else {
			ts = g.NewStructTypeSpec(n, g.NewField("F", g.IntType))
		}
		if rP(t, 8) {
			c.file.gf.AddType(ts)
		}
		return ts
	}
	switch rInt(t, 0, 6) {
	case 0:
		n := nameOr()
		r.how, r.mk = "NewReceiver", func() *g.ReceiverSpec { return g.NewReceiver(r.name, n) }
	case 1:
		n := nameOr()
		r.how, r.mk = "NewPointerReceiver", func() *g.ReceiverSpec { return g.NewPointerReceiver(r.name, n) }
		r.ptr = true
	case 2:
		tn := typeName(true)
		r.how, r.mk = "NewReceiverForType(type)", func() *g.ReceiverSpec { return g.NewReceiverForType(r.name, tn) }
	case 3:
		tn := typeName(false)
		r.how, r.mk = "NewPointerReceiverForType(type)", func() *g.ReceiverSpec { return g.NewPointerReceiverForType(r.name, tn) }
		r.ptr = true
	case 4:
		ts := spec()
		r.how, r.mk = "NewReceiverForType(element)", func() *g.ReceiverSpec { return g.NewReceiverForType(r.name, ts) }
	case 5:
		ts := spec()
		r.how, r.mk = "NewPointerReceiverForType(element)", func() *g.ReceiverSpec { return g.NewPointerReceiverForType(r.name, ts) }
		r.ptr = true
	default:
		r.how, r.mk = "literal", func() *g.ReceiverSpec { return &g.ReceiverSpec{Name: r.name, Type: r.typ, IsPointer: r.ptr} }
		r.ptr = rP(t, 8)
	}
	return r
}

func (r *c20Recv) check(got *g.ReceiverSpec) string {
	if got == nil {
		return "no receiver"
	}
	if want := (g.ReceiverSpec{Name: r.name, Type: r.typ, IsPointer: r.ptr}); *got != want {
		return fmt.Sprintf("%s gives %+v, want %+v", r.how, *got, want)
	}
	return ""
}

type c20 struct {
	t     R
	gen   *TGen
	file  *eFile
	added bool
	feats map[string]bool
	hist  []string
}

func (c *c20) log(f string, a ...any) { c.hist = append(c.hist, fmt.Sprintf(f, a...)) }

// derivedType is a type derived earlier, which must stay what it was.
type derivedType struct {
	t g.TypeName
	m *MT
}

func cloneSig(m *MT) *MT {
	return &MT{K: KFunc, Args: append([]MArg(nil), m.Args...), Res: append([]MArg(nil), m.Res...), Var: m.Var}
}

func withRecv(m *MT, name string, recv *MT) *MT {
	r := cloneSig(m)
	r.Args = append([]MArg{{name, recv}}, r.Args...)
	return r
}

// refused runs f and tells whether it panicked as it should.
func refused(what string, should bool, f func()) string {
	p, v := panics(f)
	switch {
	case p && !should:
		return fmt.Sprintf("%s panics: %v", what, v)
	case !p && should:
		return what + " should panic"
	}
	return ""
}

// grow adds an argument or result to the reference and to the element.
func (c *c20) grow(m *MT, arg, res func(string, g.TypeName), variadic func(bool)) {
	t := c.t
	n := rPick(t, []string{"", "", "a", "b2", "_", "err"})
	x := c.gen.Small()
	switch rInt(t, 0, 3) {
	case 0, 1:
		if m.Var {
			m.Var = false
			variadic(false)
		}
		if rP(t, 3) {
			x = &MT{K: KSlice, Elem: x}
			m.Args = append(m.Args, MArg{n, x})
			arg(n, x.G())
			m.Var = true
			variadic(true)
			c.feats["variadic"] = true
			return
		}
		m.Args = append(m.Args, MArg{n, x})
		arg(n, x.G())
	case 2:
		m.Res = append(m.Res, MArg{n, x})
		res(n, x.G())
	default:
		if m.Var {
			m.Var = false
			variadic(false)
		}
	}
}

func (c *c20) fn() {
	t := c.t
	name := rPick(t, []string{"Fn", "do", "Ünï", "String", "_"})
	var r *c20Recv
	var f *g.FuncSpec
	if rP(t, 10) {
		r = c.recv(true)
		var rs *g.ReceiverSpec
		mustNot(t, r.how, func() { rs = r.mk() })
		f = g.NewMethod(rs, name)
		c.feats["method"] = true
		c.feats[r.how] = true
		c.log("method %s of %+v", name, *rs)
	} else {
		f = g.NewFunc(name)
		c.feats["func"] = true
		c.log("func %s", name)
	}
	m := &MT{K: KFunc}
	if rP(t, 4) { // a signature of one's own
		m = c.gen.Sig(2)
		f.Signature = *m.GSig()
	}
	added := false
	var kept []derivedType
	fail := func(s string) {
		if s != "" {
			t.Fatalf("%s\n%s: %s", strings.Join(c.hist, "; "), name, s)
		}
	}
	for i := rSize(t, 30, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); i > 0; i-- {
		switch rWeighted(t, 5, 2, 1, 1, 1) {
		case 0:
			c.grow(m, func(n string, x g.TypeName) { same(f, f.AddArg(n, x)) }, func(n string, x g.TypeName) { same(f, f.AddResult(n, x)) }, func(v bool) { same(f, f.SetVariadic(v)) })
			c.log("signature %s", m.Canon(true))
			if r == nil {
				// the type of a plain function is a view of its signature
				kept = nil
			}
		case 1:
			if !added {
				c.file.gf.AddElement(f)
				added = true
				c.log("added")
			} else if rP(t, 5) {
				c.newFile()
				c.file.gf.AddElement(f)
				c.feats["moved"] = true
				c.log("added to %s, too", c.file.path)
			}
		case 2:
			f.SetComment("c").Println("x()").Printf("%s()", "y")
		case 3:
			c.file.name = rPick(t, []string{"p", "q", "other"})
			c.file.gf.PackageName = c.file.name
			c.log("package named %s", c.file.name)
		default:
			panics(func() { render(c.file.gf) })
			c.log("rendered")
		}
		// the signature
		fail(sigAccessors(&f.Signature, m, "signature"))
		// symbol
		pkg := g.Package{Name: c.file.name, ImportPath: c.file.path}
		fail(refused("ToSymbol", !added, func() {
			var want g.SymbolOrMethodRef = g.Symbol{Name: name, Package: pkg}
			if r != nil {
				want = g.MethodReference{Type: g.Symbol{Name: r.typ, Package: pkg}, Method: name}
			}
			if got := f.ToSymbol(); got != want {
				t.Fatalf("%s\nToSymbol is %#v, want %#v", strings.Join(c.hist, "; "), got, want)
			}
		}))
		// string
		want := name
		if added && r == nil && c.file.name != "" {
			want = c.file.name + "." + name
		}
		fail(refused("String", false, func() {
			if got := f.String(); got != want {
				t.Fatalf("%s\nString is %q, want %q", strings.Join(c.hist, "; "), got, want)
			}
		}))
		// type
		fail(refused("ToTypeName", r != nil && !added, func() {
			w := cloneSig(m)
			if r != nil {
				rt := &MT{K: KNamed, Sym: MSym{Path: c.file.path, PkgName: c.file.name, Name: r.typ}}
				if r.ptr {
					rt = &MT{K: KPtr, Elem: rt}
				}
				w = withRecv(m, r.name, rt)
			}
			d := derivedType{f.ToTypeName(), w}
			fail(accessors(d.t, w, "its type"))
			kept = append(kept, d)
		}))
		if r != nil {
			fail(r.check(f.Receiver))
		} else if f.Receiver != nil {
			fail("it has got a receiver")
		}
		if f.Name != name {
			fail("it is named " + f.Name)
		}
		fail(sigAccessors(&f.Signature, m, "signature after deriving"))
		if rP(t, 3) && len(kept) > 0 {
			scribble(kept[len(kept)-1].t)
			fail(sigAccessors(&f.Signature, m, "signature after changing lists of a derived type"))
		}
		for _, d := range kept {
			fail(accessors(d.t, d.m, "a type derived earlier"))
		}
	}
}

func (c *c20) iface() {
	t := c.t
	n := rPick(t, []string{"Iface", "ünï", "", "I0"})
	m := c.gen.Iface(1)
	for len(m.Methods) == 0 || rP(t, 4) {
		nm := fmt.Sprintf("X%d", len(m.Methods))
		m.Methods = append(m.Methods, MMethod{nm, c.gen.Sig(1)})
	}
	es := ifaceElems(m)
	ms := es[len(m.Embeds):]
	c.feats["iface"] = true
	if n == "" {
		c.feats["unnamed-iface"] = true
	}
	c.log("interface %q %s", n, m.Canon(true))
	var ts *g.TypeSpec
	state := 0 // 0 free, 1 in a type, 2 in a file
	var kept []derivedType
	fail := func(s string) {
		if s != "" {
			t.Fatalf("%s\n%s", strings.Join(c.hist, "; "), s)
		}
	}
	for i := rInt(t, 1, 6); i > 0; i-- {
		switch rInt(t, 0, 3) {
		case 0, 1:
			if state == 0 {
				ts = g.NewInterfaceTypeSpec(n, es...)
				state = 1
			} else if state == 1 && n != "" {
				if rP(t, 8) {
					c.file.gf.AddType(ts)
				} else {
					c.file.gf.AddElement(g.NewTypeDecl().AddType(ts))
				}
				state = 2
			} else if state == 2 && rP(t, 5) {
				c.newFile()
				c.file.gf.AddType(ts)
				c.feats["moved"] = true
			}
			c.log("state %d in %s", state, c.file.path)
		case 2:
			c.file.name = rPick(t, []string{"p", "q", "other"})
			c.file.gf.PackageName = c.file.name
		default:
			panics(func() { render(c.file.gf) })
			c.log("rendered")
		}
		pkg := g.Package{Name: c.file.name, ImportPath: c.file.path}
		for j, e := range ms {
			im := e.(*g.InterfaceMethod)
			mm := m.Methods[j]
			if im.String() != mm.Name {
				t.Fatalf("String of method %s is %q", mm.Name, im.String())
			}
			fail(refused("ToMethodRef of "+mm.Name, state == 0 || n == "" || state == 1, func() {
				want := g.MethodReference{Type: g.Symbol{Name: n, Package: pkg}, Method: mm.Name}
				if got := im.ToMethodRef(); got != want {
					t.Fatalf("%s\nToMethodRef is %#v, want %#v", strings.Join(c.hist, "; "), got, want)
				}
			}))
			fail(refused("ToTypeName of "+mm.Name, state == 0 || n != "" && state == 1, func() {
				recv := m
				if n != "" {
					recv = &MT{K: KNamed, Sym: MSym{Path: c.file.path, PkgName: c.file.name, Name: n}}
				}
				d := derivedType{im.ToTypeName(), withRecv(mm.Sig, "", recv)}
				fail(accessors(d.t, d.m, "type of "+mm.Name))
				kept = append(kept, d)
			}))
			fail(sigAccessors(&im.Signature, mm.Sig, "signature after deriving"))
			if rP(t, 3) && len(kept) > 0 {
				scribble(kept[len(kept)-1].t)
				fail(sigAccessors(&im.Signature, mm.Sig, "signature after changing lists of a derived type"))
			}
		}
		if ts != nil {
			fail(accessors(ts.Underlying(), m, "the interface"))
		}
		for _, d := range kept {
			fail(accessors(d.t, d.m, "a type derived earlier"))
		}
	}
	// growing a method does not change what was derived
	im := ms[0].(*g.InterfaceMethod)
	sig := cloneSig(m.Methods[0].Sig)
	c.grow(sig, func(n string, x g.TypeName) { same(im, im.AddArg(n, x)) }, func(n string, x g.TypeName) { same(im, im.AddResult(n, x)) }, func(v bool) { same(im, im.SetVariadic(v)) })
	fail(sigAccessors(&im.Signature, sig, "signature"))
	for _, d := range kept {
		fail(accessors(d.t, d.m, "a type derived earlier"))
	}
}

func (c *c20) newFile() {
	t := c.t
	c.file = &eFile{path: rPick(t, []string{"ex.com/p", "ex.com/q/v2", "", "main"}), name: rPick(t, []string{"p", "q", "main"})}
	c.file.gf = g.NewGoFile("f.go", c.file.path, c.file.name)
	if rP(t, 5) {
		c.file.gf.CanonicalImportPath = rPick(t, []string{"ex.com/canonical", c.file.path, "ex.com/p"})
	}
}

func TestC20(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		c := &c20{t: t, feats: map[string]bool{}}
		c.gen = &TGen{R: t, Named: append(append(allNamed(genPkgs(t, 1, 3, false)), predeclaredNamed...), unsafePointerInfo), AnyTag: true, Unexp: true, Blank: 3, Depth: 2}
		c.newFile()
		// evidence is recorded also when the case fails
		defer func() {
			var cl []string
			for f := range c.feats {
				cl = append(cl, f)
			}
			evCase(strings.Join(c.hist, "; "), len(c.hist) > 2 || c.feats["receiver"], cl...)
		}()
		switch rWeighted(t, 5, 4, 3) {
		case 0:
			c.fn()
		case 1:
			c.iface()
		default:
			r := c.recv(false)
			c.feats["receiver"] = true
			c.feats["receiver:"+r.how+cond(r.refuse != "", " refused")] = true
			c.log("receiver %s %+v %s", r.how, *r, r.refuse)
			var got *g.ReceiverSpec
			if s := refused(r.how+" for "+r.refuse+" "+r.typ, r.refuse != "", func() { got = r.mk() }); s != "" {
				t.Fatal(s)
			}
			if r.refuse == "" {
				if s := r.check(got); s != "" {
					t.Fatal(s)
				}
			}
		}
	})
}
