package harness

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"text/template"

	g "github.com/jhump/gopoet"
)

// builder turns a Prog into library objects.
type builder struct {
	p        *Prog
	files    []*g.GoFile
	consts   map[int]*g.ConstSpec
	vars     map[int]*g.VarSpec
	types    map[int]*g.TypeSpec
	funcs    map[int]*g.FuncSpec
	imethods map[int]*g.InterfaceMethod
	fields   map[[2]int]*g.FieldSpec
	real     map[string]string // path -> real package name
	fake     map[string]*types.Package
	cur      *g.GoFile
	// args collects what was handed to the library, to see it is not modified
	args []any
	// pause, if set, is called while the model is under construction
	pause func()
	// with sharing, what was made for a part of the model is used again where
	// the same part occurs again
	share map[any]any
}

func shared[T any](b *builder, key any, mk func() T) T {
	if b.share == nil {
		return mk()
	}
	if x, ok := b.share[key]; ok {
		return x.(T)
	}
	x := mk()
	b.share[key] = x
	return x
}

func newBuilder(p *Prog) *builder {
	b := &builder{p: p, consts: map[int]*g.ConstSpec{}, vars: map[int]*g.VarSpec{}, types: map[int]*g.TypeSpec{}, funcs: map[int]*g.FuncSpec{},
		imethods: map[int]*g.InterfaceMethod{}, fields: map[[2]int]*g.FieldSpec{}, real: map[string]string{"unsafe": "unsafe"}, fake: map[string]*types.Package{}}
	for _, e := range p.Ext {
		b.real[e.Path] = e.Name
	}
	for _, k := range p.Pkgs {
		b.real[k.Path] = k.Name
	}
	return b
}

// build makes all files.
func build(p *Prog) *builder { return buildWith(p, false) }

func buildWith(p *Prog, share bool) *builder { return buildPausing(p, share, nil) }

// buildPausing makes all files and calls pause now and then while it does.
func buildPausing(p *Prog, share bool, pause func(*builder)) *builder {
	b := newBuilder(p)
	if pause != nil {
		b.pause = func() { pause(b) }
	}
	if share {
		b.share = map[any]any{}
	}
	for _, f := range p.AllFiles() {
		b.file(f)
	}
	return b
}

func (b *builder) spec(id int) g.TypeName {
	if t := b.types[id]; t != nil {
		return t.ToTypeName()
	}
	return nil
}

func (b *builder) mt(m *MT) g.TypeName {
	return shared(b, m, func() g.TypeName { return m.GWith(b.spec) })
}

// sig gives a signature whose lists may be shared.
func (b *builder) sig(m *MT) *g.Signature {
	type key struct{ m *MT }
	return shared(b, key{m}, func() *g.Signature { return m.GSigWith(b.spec) })
}

func (b *builder) file(f *FileM) *g.GoFile {
	pk := b.p.pkgOf(f)
	gf := g.NewGoFile(f.Name, pk.Path, pk.Name)
	gf.FileComment, gf.PackageComment, gf.CanonicalImportPath = f.FileComment, f.PkgComment, f.Canonical
	b.files = append(b.files, gf)
	b.cur = gf
	for _, r := range f.Regs {
		gf.RegisterImport(r.Path, r.Name)
	}
	for _, e := range f.Elems {
		b.elem(gf, e)
		b.paused()
	}
	return gf
}

func (b *builder) paused() {
	if b.pause != nil {
		b.pause()
	}
}

func (b *builder) elem(gf *g.GoFile, e *ElemM) {
	if b.share != nil {
		if n, ok := b.share[e]; ok {
			switch x := b.elemOf(n.([2]int)).(type) {
			case *g.ConstDecl:
				if e.Direct {
					same(gf, gf.AddConst(x.Consts[0]))
					return
				}
				same(gf, gf.AddElement(x))
			case *g.VarDecl:
				if e.Direct {
					same(gf, gf.AddVar(x.Vars[0]))
					return
				}
				same(gf, gf.AddElement(x))
			case *g.TypeDecl:
				if e.Direct {
					same(gf, gf.AddType(x.Types[0]))
					return
				}
				same(gf, gf.AddElement(x))
			default:
				same(gf, gf.AddElement(x))
			}
			return
		}
		b.share[e] = [2]int{len(b.files) - 1, gf.NumElements()}
	}
	switch e.Kind {
	case EConst:
		d := g.NewConstDecl().SetComment(e.Comment)
		for _, v := range e.Vals {
			c := g.NewConst(v.Names...).SetComment(v.Comment)
			if v.Type != nil {
				same(c, c.SetType(b.tref(v.Type)))
			}
			if v.Init != nil {
				if op := v.Init.Ops; len(op) == 1 && op[0].Kind == OpPrintf {
					f, args := b.format(op[0])
					c.Initialize(f, args...)
				} else {
					same(c, c.SetInitializer(b.code(v.Init)))
				}
			}
			b.consts[v.ID] = c
			if e.Direct {
				same(gf, gf.AddConst(c))
				return
			}
			same(d, d.AddConst(c))
		}
		same(gf, gf.AddElement(d))
	case EVar:
		d := g.NewVarDecl().SetComment(e.Comment)
		for _, v := range e.Vals {
			c := g.NewVar(v.Names...).SetComment(v.Comment)
			if v.Type != nil {
				same(c, c.SetType(b.tref(v.Type)))
			}
			if v.Init != nil {
				if op := v.Init.Ops; len(op) == 1 && op[0].Kind == OpPrintf {
					f, args := b.format(op[0])
					c.Initialize(f, args...)
				} else {
					same(c, c.SetInitializer(b.code(v.Init)))
				}
			}
			b.vars[v.ID] = c
			if e.Direct {
				same(gf, gf.AddVar(c))
				return
			}
			same(d, d.AddVar(c))
		}
		same(gf, gf.AddElement(d))
	case EType:
		d := g.NewTypeDecl().SetComment(e.Comment)
		for _, t := range e.Types {
			ts := b.typeSpec(t)
			b.types[t.ID] = ts
			if e.Direct {
				same(gf, gf.AddType(ts))
				return
			}
			same(d, d.AddType(ts))
		}
		same(gf, gf.AddElement(d))
	case EFunc:
		f := e.Fn
		var fn *g.FuncSpec
		if f.Recv != nil {
			fn = g.NewMethod(b.recv(f.Recv), f.Name)
		} else {
			fn = g.NewFunc(f.Name)
		}
		b.funcs[f.ID] = fn
		same(fn, fn.SetComment(f.Comment))
		if f.Route%2 == 1 { // filled in after it is part of the file
			same(gf, gf.AddElement(fn))
			b.paused()
		}
		sig := b.sig(f.Sig)
		if f.Route&2 != 0 {
			fn.Signature = *sig
		} else {
			for _, a := range sig.Args {
				same(fn, fn.AddArg(a.Name, a.Type))
			}
			for _, a := range sig.Results {
				same(fn, fn.AddResult(a.Name, a.Type))
			}
			same(fn, fn.SetVariadic(sig.IsVariadic))
		}
		for _, op := range f.Body.Ops {
			switch op.Kind {
			case OpPrint:
				same(fn, fn.Print(op.lit()))
			case OpPrintln:
				same(fn, fn.Println(op.lit()))
			case OpPrintf:
				s, a := b.format(op)
				same(fn, fn.Printf(s, a...))
			case OpPrintlnf:
				s, a := b.format(op)
				same(fn, fn.Printlnf(s, a...))
			case OpTemplate:
				tm, data := b.templ(op)
				same(fn, fn.RenderCode(tm, data))
			case OpAddCode:
				same(fn, fn.AddCode(b.code(op.Sub)))
			}
			if f.Route%2 == 1 {
				b.paused()
			}
		}
		if f.Route%2 == 0 {
			same(gf, gf.AddElement(fn))
		}
	}
}

func (b *builder) elemOf(at [2]int) g.FileElement { return b.files[at[0]].ElementAt(at[1]) }

func (b *builder) recv(r *RecvM) *g.ReceiverSpec {
	switch {
	case r.How == 1:
		t := g.NamedType(g.Symbol{Name: r.Type, Package: b.cur.Package()})
		if r.Ptr {
			return g.NewReceiverForType(r.Name, g.PointerType(t))
		}
		return g.NewReceiverForType(r.Name, t)
	case r.How == 2 && b.types[r.SpecID] != nil:
		if r.Ptr {
			return g.NewPointerReceiverForType(r.Name, b.types[r.SpecID])
		}
		return g.NewReceiverForType(r.Name, b.types[r.SpecID])
	case r.How == 3 && r.Ptr:
		return g.NewPointerReceiverForType(r.Name, g.NamedType(g.Symbol{Name: r.Type}))
	}
	if r.Ptr {
		return g.NewPointerReceiver(r.Name, r.Type)
	}
	return g.NewReceiver(r.Name, r.Type)
}

func (b *builder) tref(t *TRef) g.TypeNameOrSpec {
	if t.Anon != nil {
		return shared(b, t.Anon, func() *g.TypeSpec { return b.typeSpec(t.Anon) })
	}
	if t.SpecID > 0 && b.types[t.SpecID] != nil {
		return b.types[t.SpecID]
	}
	return b.mt(t.T)
}

// lateType is what fields and interface elements start out with if they get
// their real types only when the type is made.
var lateType = g.NamedType(g.NewSymbol("late.example/later", "Later"))

func (b *builder) typeSpec(t *TypeM) *g.TypeSpec {
	var ts *g.TypeSpec
	mk := g.NewTypeSpec
	if t.Alias {
		mk = g.NewTypeAlias
	}
	switch t.Body {
	case BodyType:
		ts = mk(t.Name, b.mt(t.T))
	case BodySpec:
		ts = mk(t.Name, b.tref(t.Ref))
	case BodyStruct:
		var fs []*g.FieldSpec
		for i, f := range t.Fields {
			f := f
			fs = append(fs, shared(b, f, func() *g.FieldSpec {
				return g.NewField(f.Name, b.tref(f.Type)).SetTag(f.Tag).SetComment(f.Comment)
			}))
			b.fields[[2]int{t.ID, i}] = fs[len(fs)-1]
		}
		if t.Late && b.share == nil {
			for _, f := range fs {
				typ := f.Type
				f.Type = lateType
				defer func() { f.Type = typ }()
			}
		}
		ts = g.NewStructTypeSpec(t.Name, fs...)
		if t.Alias {
			ts = g.NewTypeAlias(t.Name, g.NewStructTypeSpec("", fs...))
		}
	case BodyIface:
		var es []g.InterfaceElement
		for _, e := range t.Elems {
			if x, ok := b.share[e]; ok {
				es = append(es, x.(g.InterfaceElement))
				continue
			}
			if e.Embed != nil {
				es = append(es, g.NewInterfaceEmbed(e.Embed.G()).SetComment(e.Comment))
				continue
			}
			m := g.NewInterfaceMethod(e.Name).SetComment(e.Comment)
			sig := b.sig(e.Sig)
			for _, a := range sig.Args {
				same(m, m.AddArg(a.Name, a.Type))
			}
			for _, a := range sig.Results {
				same(m, m.AddResult(a.Name, a.Type))
			}
			same(m, m.SetVariadic(sig.IsVariadic))
			b.imethods[e.ID] = m
			es = append(es, m)
		}
		if b.share != nil {
			for i, e := range t.Elems {
				b.share[e] = es[i]
			}
		}
		if t.Late && b.share == nil {
			for _, e := range es {
				switch e := e.(type) {
				case *g.InterfaceEmbed:
					typ := e.Type
					e.Type = lateType.Symbol()
					defer func() { e.Type = typ }()
				case *g.InterfaceMethod:
					sig := e.Signature
					e.Signature = *(&g.Signature{}).AddArg("late", lateType)
					defer func() { e.Signature = sig }()
				}
			}
		}
		ts = g.NewInterfaceTypeSpec(t.Name, es...)
		if t.Alias {
			ts = g.NewTypeAlias(t.Name, g.NewInterfaceTypeSpec("", es...))
		}
	}
	return ts.SetComment(t.Comment)
}

func (op *COp) lit() string {
	var s strings.Builder
	for _, p := range op.Pieces {
		if p.Ref != nil {
			harnessBug("reference in plain text")
		}
		s.WriteString(p.Lit)
	}
	return s.String()
}

func (b *builder) code(c *CodeM) *g.CodeBlock {
	return shared(b, c, func() *g.CodeBlock { return b.newCode(c) })
}

func (b *builder) newCode(c *CodeM) *g.CodeBlock {
	cb := &g.CodeBlock{}
	for _, op := range c.Ops {
		switch op.Kind {
		case OpPrint:
			same(cb, cb.Print(op.lit()))
		case OpPrintln:
			same(cb, cb.Println(op.lit()))
		case OpPrintf:
			s, a := b.format(op)
			same(cb, cb.Printf(s, a...))
		case OpPrintlnf:
			s, a := b.format(op)
			same(cb, cb.Printlnf(s, a...))
		case OpTemplate:
			same(cb, cb.RenderCode(b.templ(op)))
		case OpAddCode:
			same(cb, cb.AddCode(b.code(op.Sub)))
		}
	}
	return cb
}

func (b *builder) format(op *COp) (string, []any) {
	type formatted struct {
		s    string
		args []any
	}
	f := shared(b, op, func() formatted {
		s, args := b.newFormat(op)
		return formatted{s, args}
	})
	return f.s, f.args
}

func (b *builder) newFormat(op *COp) (string, []any) {
	var s strings.Builder
	var args []any
	for _, p := range op.Pieces {
		if p.Ref == nil {
			s.WriteString(strings.ReplaceAll(p.Lit, "%", "%%"))
			continue
		}
		v := p.Verb
		if v == "" {
			v = "%s"
		}
		s.WriteString(v)
		args = append(args, b.arg(p.Ref))
	}
	b.args = append(b.args, args)
	return s.String(), args
}

// tmplStruct is one of the shapes template data takes.
type tmplStruct struct {
	R    []any
	Skip int
	P    *tmplInner
	x    map[string]any
}

type tmplInner struct {
	S any
	N string
}

// templ makes a template and its data. Every reference in the data is used by
// the template.
func (b *builder) templ(op *COp) (*template.Template, any) {
	type templated struct {
		t    *template.Template
		data any
	}
	f := shared(b, op, func() templated {
		t, data := b.newTempl(op)
		return templated{t, data}
	})
	return f.t, f.data
}

func (b *builder) newTempl(op *COp) (*template.Template, any) {
	var text strings.Builder
	var args []any
	for _, p := range op.Pieces {
		if p.Ref == nil {
			text.WriteString(strings.ReplaceAll(p.Lit, "{{", `{{"{{"}}`))
			continue
		}
		i := len(args)
		args = append(args, b.arg(p.Ref))
		switch op.Shape {
		case 0:
			fmt.Fprintf(&text, "{{index . %d}}", i)
		case 1:
			fmt.Fprintf(&text, "{{.K%d}}", i)
		case 2:
			fmt.Fprintf(&text, "{{index .R %d}}", i)
		default:
			if i == 0 {
				text.WriteString("{{.P.S}}")
			} else {
				fmt.Fprintf(&text, "{{index .R %d}}", i-1)
			}
		}
	}
	var data any
	switch op.Shape {
	case 0:
		data = args
	case 1:
		m := map[string]any{}
		for i, a := range args {
			m["K"+strconv.Itoa(i)] = a
		}
		data = m
	case 2:
		data = tmplStruct{R: args, Skip: 7}
	default:
		d := &tmplStruct{P: &tmplInner{N: "n"}}
		if len(args) > 0 {
			d.P.S = args[0]
			d.R = args[1:]
		}
		data = d
	}
	b.args = append(b.args, data)
	tm, err := template.New("t").Parse(text.String())
	if err != nil {
		harnessBug("template %q: %v", text.String(), err)
	}
	return tm, data
}

// arg makes the object of a reference in its form.
func (b *builder) arg(x *RefM) any {
	sym := x.Sym.G()
	switch x.Form {
	case FPackage:
		return sym.Package
	case FPackagePtr:
		return &sym.Package
	case FGoPackage:
		return b.goPkg(x.Sym.Path)
	case FSymbol:
		return sym
	case FSymbolPtr:
		return &sym
	case FMethodRef:
		return g.MethodReference{Type: sym, Method: x.Method}
	case FMethodRefPtr:
		return &g.MethodReference{Type: sym, Method: x.Method}
	case FTypeName:
		return b.mt(x.T)
	case FAnonSpec:
		return g.NewTypeSpec("", b.mt(x.T))
	case FConstSpec:
		return must(b.consts[x.ID])
	case FVarSpec:
		return must(b.vars[x.ID])
	case FTypeSpec:
		return must(b.types[x.ID])
	case FFuncSpec, FMethodSpec:
		return must(b.funcs[x.ID])
	case FFieldSpec:
		return must(b.fields[[2]int{x.ID, x.Idx}])
	case FEmbed:
		return g.NewInterfaceEmbed(sym)
	case FIfaceMethod:
		return must(b.imethods[x.ID])
	case FReflect:
		if x.T != nil {
			return reflectOf(x.T)
		}
		c := catByPath(x.Sym.Path)
		return c.types[x.Sym.Name]
	case FGoType:
		t := x.T
		if t == nil {
			t = &MT{K: KNamed, Sym: x.Sym}
		}
		return (&goEnv{names: b.real, lookup: b.goNamed, pkg: b.goPkg(b.cur.Package().ImportPath)}).typ(t)
	case FGoObject:
		return b.goObject(x)
	case FPrefix:
		return b.cur.RegisterImport(x.Sym.Path, x.Sym.PkgName)
	}
	panic("bad form")
}

func must[T any](p *T) *T {
	if p == nil {
		harnessBug("reference to an element that was not built")
	}
	return p
}

func (b *builder) isExt(path string) bool {
	for _, e := range b.p.Ext {
		if e.Path == path {
			return true
		}
	}
	return false
}

func (b *builder) goPkg(path string) *types.Package {
	if path == "unsafe" {
		return types.Unsafe
	}
	if b.isExt(path) {
		return uniformPkg(path, b.real[path])
	}
	if b.fake[path] == nil {
		name, ok := b.real[path]
		if !ok {
			harnessBug("no package %s", path)
		}
		b.fake[path] = types.NewPackage(path, name)
	}
	return b.fake[path]
}

// goNamed gives a go/types type with the right identity.
func (b *builder) goNamed(s MSym) types.Type {
	if s.Path == "" {
		return types.Universe.Lookup(s.Name).Type()
	}
	if s.Path == "unsafe" {
		return types.Typ[types.UnsafePointer]
	}
	if b.isExt(s.Path) {
		return b.goPkg(s.Path).Scope().Lookup(s.Name).Type()
	}
	return types.NewNamed(types.NewTypeName(token.NoPos, b.goPkg(s.Path), s.Name, nil), types.Typ[types.Int], nil)
}

func (b *builder) goObject(x *RefM) types.Object {
	if x.Sym.Path == "" {
		return types.Universe.Lookup(x.Sym.Name)
	}
	pk := b.goPkg(x.Sym.Path)
	if b.isExt(x.Sym.Path) || x.Sym.Path == "unsafe" {
		o := pk.Scope().Lookup(x.Sym.Name)
		if o == nil {
			harnessBug("no object %v", x.Sym)
		}
		if x.Method != "" {
			n := o.Type().(*types.Named)
			if it, ok := n.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() == x.Method {
						return it.Method(i)
					}
				}
			}
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Name() == x.Method {
					return n.Method(i)
				}
			}
			harnessBug("no method %v.%s", x.Sym, x.Method)
		}
		return o
	}
	if x.Method != "" {
		recv := types.NewParam(token.NoPos, pk, "r", b.goNamed(x.Sym))
		return types.NewFunc(token.NoPos, pk, x.Method, types.NewSignatureType(recv, nil, nil, nil, nil, false))
	}
	switch x.Kind {
	case EConst:
		return types.NewConst(token.NoPos, pk, x.Sym.Name, types.Typ[types.Int], constant.MakeInt64(1))
	case EVar:
		return types.NewVar(token.NoPos, pk, x.Sym.Name, types.Typ[types.Int])
	case EType:
		return b.goNamed(x.Sym).(*types.Named).Obj()
	default:
		return types.NewFunc(token.NoPos, pk, x.Sym.Name, types.NewSignatureType(nil, nil, nil, nil, nil, false))
	}
}

// same checks that a method for chaining returns what it was called on.
func same[T comparable](x, chained T) {
	if x != chained {
		panic(fmt.Sprintf("a method of %T for chaining returns %v instead of what it was called on", x, chained))
	}
}
