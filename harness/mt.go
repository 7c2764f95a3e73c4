// Package harness holds the generators, reference models and oracles of the
// property-based checks for github.com/jhump/gopoet. Everything here uses only
// the exported API of the library under test.
package harness

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	g "github.com/jhump/gopoet"
)

// Kind is the harness's own enumeration of type constructors.
type Kind int

const (
	KBasic Kind = iota
	KNamed
	KPtr
	KSlice
	KArray
	KMap
	KChan
	KFunc
	KStruct
	KIface
)

var kindNames = [...]string{"basic", "named", "ptr", "slice", "array", "map", "chan", "func", "struct", "interface"}

func (k Kind) String() string { return kindNames[k] }

// MSym names a package-level element. Path=="" means predeclared (or, where a
// test says so, unqualified).
type MSym struct {
	Path, PkgName, Name string
}

type MArg struct {
	Name string
	T    *MT
}

type MField struct {
	Name string // "" = embedded
	T    *MT
	Tag  string
}

type MMethod struct {
	Name string
	Sig  *MT // KFunc
}

// MT is the harness's model of a Go type.
type MT struct {
	K       Kind
	Basic   reflect.Kind
	Sym     MSym
	SpecID  int // >0: build through the generated type element with this id
	Elem    *MT
	Key     *MT
	Len     int64
	Dir     reflect.ChanDir
	Args    []MArg
	Res     []MArg
	Var     bool
	Fields  []MField
	Methods []MMethod
	Embeds  []MSym
	Route   int // which of several equivalent constructors to use
	// Wrap (interfaces, where the source form matters): this many leading
	// methods and embeds come from an embedded unnamed interface
	Wrap, WrapE int
	// the last of these methods are declared in the interface, too, and the same
	// unnamed interface is embedded so many times more
	WrapO, WrapN int
}

// Canon renders a canonical, position- and formatting-independent description.
// Package names are left out: an element is its import path and name.
func (m *MT) Canon(paramNames bool) string {
	var b strings.Builder
	m.canon(&b, paramNames, false)
	return b.String()
}

// CanonQ also includes the package qualifier of every named type.
func (m *MT) CanonQ() string {
	var b strings.Builder
	m.canon(&b, true, true)
	return b.String()
}

func (s MSym) canon(q bool) string {
	r := strconv.Quote(s.Path) + "." + s.Name
	if q {
		r += "<" + s.PkgName + ">"
	}
	return r
}

func (m *MT) canon(b *strings.Builder, pn, q bool) {
	if m == nil {
		b.WriteString("NIL")
		return
	}
	switch m.K {
	case KBasic:
		b.WriteString(m.Basic.String())
	case KNamed:
		b.WriteString(m.Sym.canon(q))
	case KPtr:
		b.WriteString("ptr(")
		m.Elem.canon(b, pn, q)
		b.WriteString(")")
	case KSlice:
		b.WriteString("slice(")
		m.Elem.canon(b, pn, q)
		b.WriteString(")")
	case KArray:
		fmt.Fprintf(b, "array[%d](", m.Len)
		m.Elem.canon(b, pn, q)
		b.WriteString(")")
	case KMap:
		b.WriteString("map(")
		m.Key.canon(b, pn, q)
		b.WriteString(" -> ")
		m.Elem.canon(b, pn, q)
		b.WriteString(")")
	case KChan:
		fmt.Fprintf(b, "chan[%d](", int(m.Dir))
		m.Elem.canon(b, pn, q)
		b.WriteString(")")
	case KFunc:
		b.WriteString("func")
		m.canonSig(b, pn, q)
	case KStruct:
		b.WriteString("struct{")
		for _, f := range m.Fields {
			if f.Name == "" {
				b.WriteString("embed ")
			} else {
				b.WriteString(f.Name + " ")
			}
			f.T.canon(b, pn, q)
			if f.Tag != "" {
				b.WriteString(" tag" + strconv.Quote(f.Tag))
			}
			b.WriteString("; ")
		}
		b.WriteString("}")
	case KIface:
		b.WriteString("interface{")
		var parts []string
		for _, e := range m.Embeds {
			parts = append(parts, "embed "+e.canon(q))
		}
		for _, mm := range m.Methods {
			var mb strings.Builder
			mb.WriteString("method " + mm.Name)
			mm.Sig.canonSig(&mb, pn, q)
			parts = append(parts, mb.String())
		}
		sort.Strings(parts)
		b.WriteString(strings.Join(parts, "; "))
		b.WriteString("}")
	}
}

func (m *MT) canonSig(b *strings.Builder, pn, q bool) {
	list := func(as []MArg, variadic bool) {
		named := false
		for _, a := range as {
			if a.Name != "" {
				named = true
			}
		}
		b.WriteString("(")
		for i, a := range as {
			if i > 0 {
				b.WriteString(", ")
			}
			if pn && named {
				if a.Name == "" {
					b.WriteString("_ ")
				} else {
					b.WriteString(a.Name + " ")
				}
			}
			if variadic && i == len(as)-1 {
				b.WriteString("...")
			}
			a.T.canon(b, pn, q)
		}
		b.WriteString(")")
	}
	list(m.Args, m.Var)
	list(m.Res, false)
}

// Walk visits every type node, depth first.
func (m *MT) Walk(f func(*MT)) {
	if m == nil {
		return
	}
	f(m)
	m.Elem.Walk(f)
	m.Key.Walk(f)
	for _, a := range m.Args {
		a.T.Walk(f)
	}
	for _, a := range m.Res {
		a.T.Walk(f)
	}
	for _, fl := range m.Fields {
		fl.T.Walk(f)
	}
	for _, mm := range m.Methods {
		mm.Sig.Walk(f)
	}
}

// Syms visits every symbol the type refers to.
func (m *MT) Syms(f func(MSym)) {
	m.Walk(func(n *MT) {
		if n.K == KNamed {
			f(n.Sym)
		}
		for _, e := range n.Embeds {
			f(e)
		}
	})
}

func (m *MT) Depth() int {
	if m == nil {
		return 0
	}
	d := 0
	up := func(x *MT) {
		if n := x.Depth(); n > d {
			d = n
		}
	}
	up(m.Elem)
	up(m.Key)
	for _, a := range m.Args {
		up(a.T)
	}
	for _, a := range m.Res {
		up(a.T)
	}
	for _, f := range m.Fields {
		up(f.T)
	}
	for _, mm := range m.Methods {
		up(mm.Sig)
	}
	return d + 1
}

// MapSyms returns a deep copy with every symbol replaced.
func (m *MT) MapSyms(f func(MSym) MSym) *MT {
	if m == nil {
		return nil
	}
	n := *m
	n.Elem = m.Elem.MapSyms(f)
	n.Key = m.Key.MapSyms(f)
	if m.K == KNamed {
		n.Sym = f(m.Sym)
	}
	args := func(as []MArg) []MArg {
		var r []MArg
		for _, a := range as {
			r = append(r, MArg{a.Name, a.T.MapSyms(f)})
		}
		return r
	}
	n.Args, n.Res = args(m.Args), args(m.Res)
	n.Fields = nil
	for _, fl := range m.Fields {
		n.Fields = append(n.Fields, MField{fl.Name, fl.T.MapSyms(f), fl.Tag})
	}
	n.Methods = nil
	for _, mm := range m.Methods {
		n.Methods = append(n.Methods, MMethod{mm.Name, mm.Sig.MapSyms(f)})
	}
	n.Embeds = nil
	for _, e := range m.Embeds {
		n.Embeds = append(n.Embeds, f(e))
	}
	return &n
}

// ---------------------------------------------------------------- to gopoet

func (s MSym) G() g.Symbol {
	return g.Symbol{Name: s.Name, Package: g.Package{ImportPath: s.Path, Name: s.PkgName}}
}

var basicVars = map[reflect.Kind]g.TypeName{
	reflect.Int: g.IntType, reflect.Int8: g.Int8Type, reflect.Int16: g.Int16Type, reflect.Int32: g.Int32Type, reflect.Int64: g.Int64Type,
	reflect.Uint: g.UintType, reflect.Uint8: g.Uint8Type, reflect.Uint16: g.Uint16Type, reflect.Uint32: g.Uint32Type, reflect.Uint64: g.Uint64Type,
	reflect.Uintptr: g.UintptrType, reflect.Bool: g.BoolType, reflect.String: g.StringType, reflect.Float32: g.Float32Type, reflect.Float64: g.Float64Type,
	reflect.Complex64: g.Complex64Type, reflect.Complex128: g.Complex128Type,
}

var basicKinds = []reflect.Kind{
	reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
	reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
	reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String,
}

// specResolver maps a generated type element's id to its TypeName (nil if none).
type specResolver func(id int) g.TypeName

// G builds the gopoet TypeName of the model.
func (m *MT) G() g.TypeName { return m.GWith(nil) }

func (m *MT) GWith(sr specResolver) g.TypeName {
	switch m.K {
	case KBasic:
		if m.Route%2 == 1 {
			return basicVars[m.Basic]
		}
		return g.BasicType(m.Basic)
	case KNamed:
		if m.SpecID > 0 && sr != nil {
			if t := sr(m.SpecID); t != nil {
				return t
			}
		}
		if m.Sym.Path == "unsafe" && m.Sym.PkgName == "unsafe" && m.Route%2 == 1 {
			return g.UnsafePointerType
		}
		if m.Sym == (MSym{Name: "error"}) && m.Route%2 == 1 {
			return g.ErrorType
		}
		return g.NamedType(m.Sym.G())
	case KPtr:
		return g.PointerType(m.Elem.GWith(sr))
	case KSlice:
		return g.SliceType(m.Elem.GWith(sr))
	case KArray:
		return g.ArrayType(m.Elem.GWith(sr), m.Len)
	case KMap:
		return g.MapType(m.Key.GWith(sr), m.Elem.GWith(sr))
	case KChan:
		d := m.Dir
		if d == reflect.BothDir && m.Route%2 == 1 {
			d = 0
		}
		return g.ChannelType(m.Elem.GWith(sr), d)
	case KFunc:
		sig := m.GSigWith(sr)
		switch m.Route % 3 {
		case 0:
			return g.FuncTypeFromSig(sig)
		case 1:
			if m.Var {
				return g.FuncTypeVariadic(sig.Args, sig.Results)
			}
			return g.FuncType(sig.Args, sig.Results)
		default:
			s := &g.Signature{}
			for _, a := range sig.Args {
				same(s, s.AddArg(a.Name, a.Type))
			}
			for _, a := range sig.Results {
				same(s, s.AddResult(a.Name, a.Type))
			}
			return g.FuncTypeFromSig(s.SetVariadic(m.Var))
		}
	case KStruct:
		var fs []g.FieldType
		for _, f := range m.Fields {
			fs = append(fs, g.FieldType{Name: f.Name, Type: f.T.GWith(sr), Tag: reflect.StructTag(f.Tag)})
		}
		return g.StructType(fs...)
	case KIface:
		var es []g.Symbol
		for _, e := range m.Embeds {
			es = append(es, e.G())
		}
		var ms []g.MethodType
		for _, mm := range m.Methods {
			ms = append(ms, g.MethodType{Name: mm.Name, Signature: *mm.Sig.GSigWith(sr)})
		}
		return g.InterfaceType(es, ms...)
	}
	panic("bad kind")
}

func (m *MT) GSig() *g.Signature { return m.GSigWith(nil) }

func (m *MT) GSigWith(sr specResolver) *g.Signature {
	conv := func(as []MArg) []g.ArgType {
		var r []g.ArgType
		for _, a := range as {
			r = append(r, g.ArgType{Name: a.Name, Type: a.T.GWith(sr)})
		}
		return r
	}
	return &g.Signature{Args: conv(m.Args), Results: conv(m.Res), IsVariadic: m.Var}
}

// -------------------------------------------------------------- from gopoet

func symFromG(s g.Symbol) MSym {
	return MSym{Path: s.Package.ImportPath, PkgName: s.Package.Name, Name: s.Name}
}

// FromG reads a TypeName back through its accessors.
func FromG(t g.TypeName) *MT {
	if t == nil {
		return nil
	}
	switch t.Kind() {
	case g.KindBasic:
		return &MT{K: KBasic, Basic: t.BasicKind()}
	case g.KindNamed:
		return &MT{K: KNamed, Sym: symFromG(t.Symbol())}
	case g.KindPtr:
		return &MT{K: KPtr, Elem: FromG(t.Elem())}
	case g.KindSlice:
		return &MT{K: KSlice, Elem: FromG(t.Elem())}
	case g.KindArray:
		return &MT{K: KArray, Elem: FromG(t.Elem()), Len: t.Len()}
	case g.KindMap:
		return &MT{K: KMap, Elem: FromG(t.Elem()), Key: FromG(t.Key())}
	case g.KindChan:
		return &MT{K: KChan, Elem: FromG(t.Elem()), Dir: t.Dir()}
	case g.KindFunc:
		return FromGSig(t.Signature())
	case g.KindStruct:
		m := &MT{K: KStruct}
		for _, f := range t.Fields() {
			m.Fields = append(m.Fields, MField{f.Name, FromG(f.Type), string(f.Tag)})
		}
		return m
	case g.KindInterface:
		m := &MT{K: KIface}
		for _, e := range t.Embeds() {
			m.Embeds = append(m.Embeds, symFromG(e))
		}
		for _, mm := range t.Methods() {
			s := mm.Signature
			m.Methods = append(m.Methods, MMethod{mm.Name, FromGSig(&s)})
		}
		return m
	}
	panic(fmt.Sprintf("TypeName with invalid kind %d", t.Kind()))
}

func FromGSig(s *g.Signature) *MT {
	m := &MT{K: KFunc, Var: s.IsVariadic}
	for _, a := range s.Args {
		m.Args = append(m.Args, MArg{a.Name, FromG(a.Type)})
	}
	for _, a := range s.Results {
		m.Res = append(m.Res, MArg{a.Name, FromG(a.Type)})
	}
	return m
}

// ---------------------------------------------------------------- go/types

var goBasic = map[reflect.Kind]types.BasicKind{
	reflect.Bool: types.Bool, reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16, reflect.Int32: types.Int32, reflect.Int64: types.Int64,
	reflect.Uint: types.Uint, reflect.Uint8: types.Uint8, reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64,
	reflect.Uintptr: types.Uintptr, reflect.Float32: types.Float32, reflect.Float64: types.Float64, reflect.Complex64: types.Complex64,
	reflect.Complex128: types.Complex128, reflect.String: types.String,
}

var fromGoBasic = func() map[types.BasicKind]reflect.Kind {
	r := map[types.BasicKind]reflect.Kind{}
	for k, v := range goBasic {
		r[v] = k
	}
	return r
}()

func symFromObj(o types.Object) MSym {
	s := MSym{Name: o.Name()}
	if o.Pkg() != nil {
		s.Path, s.PkgName = o.Pkg().Path(), o.Pkg().Name()
	}
	return s
}

// FromGo converts a checked type to the model. Aliases stay named unless
// unalias is set.
func FromGo(t types.Type, unalias bool) *MT {
	if unalias {
		t = types.Unalias(t)
	}
	switch t := t.(type) {
	case *types.Alias:
		return &MT{K: KNamed, Sym: symFromObj(t.Obj())}
	case *types.Named:
		return &MT{K: KNamed, Sym: symFromObj(t.Obj())}
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return &MT{K: KNamed, Sym: MSym{"unsafe", "unsafe", "Pointer"}}
		}
		k, ok := fromGoBasic[t.Kind()]
		if !ok {
			return &MT{K: KNamed, Sym: MSym{Name: "basic?" + t.String()}}
		}
		return &MT{K: KBasic, Basic: k}
	case *types.Pointer:
		return &MT{K: KPtr, Elem: FromGo(t.Elem(), unalias)}
	case *types.Slice:
		return &MT{K: KSlice, Elem: FromGo(t.Elem(), unalias)}
	case *types.Array:
		return &MT{K: KArray, Elem: FromGo(t.Elem(), unalias), Len: t.Len()}
	case *types.Map:
		return &MT{K: KMap, Elem: FromGo(t.Elem(), unalias), Key: FromGo(t.Key(), unalias)}
	case *types.Chan:
		d := reflect.BothDir
		switch t.Dir() {
		case types.SendOnly:
			d = reflect.SendDir
		case types.RecvOnly:
			d = reflect.RecvDir
		}
		return &MT{K: KChan, Elem: FromGo(t.Elem(), unalias), Dir: d}
	case *types.Signature:
		return sigFromGo(t, unalias)
	case *types.Struct:
		m := &MT{K: KStruct}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			n := f.Name()
			if f.Embedded() {
				n = ""
			}
			m.Fields = append(m.Fields, MField{n, FromGo(f.Type(), unalias), t.Tag(i)})
		}
		return m
	case *types.Interface:
		m := &MT{K: KIface}
		if flattenIfaces {
			for i := 0; i < t.NumMethods(); i++ {
				m.Methods = append(m.Methods, MMethod{t.Method(i).Name(), sigFromGo(t.Method(i).Type().(*types.Signature), unalias)})
			}
			return m
		}
		addIface(m, t, unalias)
		return m
	}
	return &MT{K: KNamed, Sym: MSym{Name: fmt.Sprintf("?%T", t)}}
}

// flattenIfaces makes FromGo describe interfaces by their complete method set.
var flattenIfaces bool

func addIface(m *MT, t *types.Interface, unalias bool) {
	for i := 0; i < t.NumEmbeddeds(); i++ {
		et := t.EmbeddedType(i)
		if unalias {
			et = types.Unalias(et)
		}
		switch e := et.(type) {
		case *types.Named:
			m.Embeds = append(m.Embeds, symFromObj(e.Obj()))
		case *types.Alias:
			m.Embeds = append(m.Embeds, symFromObj(e.Obj()))
		case *types.Interface:
			addIface(m, e, unalias)
		default:
			m.Embeds = append(m.Embeds, MSym{Name: "?" + e.String()})
		}
	}
	for i := 0; i < t.NumExplicitMethods(); i++ {
		mm := t.ExplicitMethod(i)
		m.Methods = append(m.Methods, MMethod{mm.Name(), sigFromGo(mm.Type().(*types.Signature), unalias)})
	}
}

func sigFromGo(t *types.Signature, unalias bool) *MT {
	m := &MT{K: KFunc, Var: t.Variadic()}
	for i := 0; i < t.Params().Len(); i++ {
		p := t.Params().At(i)
		m.Args = append(m.Args, MArg{p.Name(), FromGo(p.Type(), unalias)})
	}
	for i := 0; i < t.Results().Len(); i++ {
		p := t.Results().At(i)
		m.Res = append(m.Res, MArg{p.Name(), FromGo(p.Type(), unalias)})
	}
	return m
}

// --------------------------------------------------------- reference printer

// qualifier gives the text prefix ("alias." or "") for an import path.
type qualifier func(path string) string

// Src prints the type as Go source, independently of the library.
func (m *MT) Src(q qualifier) string {
	var b strings.Builder
	m.src(&b, q)
	return b.String()
}

func (s MSym) Src(q qualifier) string {
	if s.Path == "" {
		return s.Name
	}
	return q(s.Path) + s.Name
}

func (m *MT) src(b *strings.Builder, q qualifier) {
	switch m.K {
	case KBasic:
		switch m.Basic {
		case reflect.Uint8:
			b.WriteString("byte")
		case reflect.Int32:
			b.WriteString("rune")
		default:
			b.WriteString(m.Basic.String())
		}
	case KNamed:
		b.WriteString(m.Sym.Src(q))
	case KPtr:
		b.WriteString("*")
		m.Elem.src(b, q)
	case KSlice:
		b.WriteString("[]")
		m.Elem.src(b, q)
	case KArray:
		fmt.Fprintf(b, "[%d]", m.Len)
		m.Elem.src(b, q)
	case KMap:
		b.WriteString("map[")
		m.Key.src(b, q)
		b.WriteString("]")
		m.Elem.src(b, q)
	case KChan:
		switch m.Dir {
		case reflect.RecvDir:
			b.WriteString("<-chan ")
		case reflect.SendDir:
			b.WriteString("chan<- ")
		default:
			b.WriteString("chan ")
		}
		if m.Dir == reflect.BothDir && m.Elem.K == KChan && m.Elem.Dir == reflect.RecvDir {
			b.WriteString("(")
			m.Elem.src(b, q)
			b.WriteString(")")
		} else {
			m.Elem.src(b, q)
		}
	case KFunc:
		b.WriteString("func")
		m.srcSig(b, q)
	case KStruct:
		b.WriteString("struct{")
		for i, f := range m.Fields {
			if i > 0 {
				b.WriteString("; ")
			}
			if f.Name != "" {
				b.WriteString(f.Name + " ")
			}
			f.T.src(b, q)
			if f.Tag != "" {
				b.WriteString(" " + tagLit(f.Tag))
			}
		}
		b.WriteString("}")
	case KIface:
		b.WriteString("interface{")
		n := 0
		sep := func() {
			if n > 0 {
				b.WriteString("; ")
			}
			n++
		}
		if m.Wrap > 0 || m.WrapE > 0 {
			for i := 0; i <= m.WrapN; i++ {
				sep()
				in := MT{K: KIface, Methods: m.Methods[:m.Wrap], Embeds: m.Embeds[:m.WrapE]}
				in.src(b, q)
			}
		}
		for _, e := range m.Embeds[m.WrapE:] {
			sep()
			b.WriteString(e.Src(q))
		}
		for _, mm := range m.Methods[m.Wrap-m.WrapO:] {
			sep()
			b.WriteString(mm.Name)
			mm.Sig.srcSig(b, q)
		}
		b.WriteString("}")
	}
}

func tagLit(tag string) string {
	if strconv.CanBackquote(tag) {
		return "`" + tag + "`"
	}
	return strconv.Quote(tag)
}

func (m *MT) srcSig(b *strings.Builder, q qualifier) {
	list := func(as []MArg, variadic bool) {
		named := false
		for _, a := range as {
			named = named || a.Name != ""
		}
		for i, a := range as {
			if i > 0 {
				b.WriteString(", ")
			}
			if named {
				if a.Name == "" {
					b.WriteString("_ ")
				} else {
					b.WriteString(a.Name + " ")
				}
			}
			if variadic && i == len(as)-1 {
				b.WriteString("...")
				a.T.Elem.src(b, q)
			} else {
				a.T.src(b, q)
			}
		}
	}
	b.WriteString("(")
	list(m.Args, m.Var)
	b.WriteString(")")
	if len(m.Res) == 0 {
		return
	}
	if len(m.Res) == 1 && m.Res[0].Name == "" {
		b.WriteString(" ")
		list(m.Res, false)
		return
	}
	b.WriteString(" (")
	list(m.Res, false)
	b.WriteString(")")
}
