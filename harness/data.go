package harness

import (
	"errors"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	g "github.com/jhump/gopoet"

	"pgregory.net/rapid"
	k0 "verif/harness/pk/alpha"
	k1 "verif/harness/pk/x/alpha"
	k2 "verif/harness/pk/y/alpha"
)

// Template data, as plain models from which the real values are built.

// DT describes the static type of a piece of data.
type DT struct {
	K      string // a leaf's name, or one of the composites below
	Elem   *DT    `json:",omitempty"`
	Key    *DT    `json:",omitempty"`
	Len    int    `json:",omitempty"`
	Fields []DF   `json:",omitempty"`
}

// DF is a field of a composed struct type.
type DF struct {
	Name string
	T    *DT
}

// DV is a value of a DT.
type DV struct {
	Nil  bool   `json:",omitempty"`
	I    int    `json:",omitempty"`
	S    string `json:",omitempty"`
	Sym  MSym   // for references
	M    string `json:",omitempty"` // method
	T    *MT    `json:",omitempty"` // for types and signatures
	Dyn  *DT    `json:",omitempty"` // dynamic type of an interface value
	Kids []*DV  `json:",omitempty"` // elements, fields, the pointee, map values
	Keys []*DV  `json:",omitempty"`
	// Identity: a value may be known as a location, which a pointer points at or
	// which another pointer, slice or map is a copy of. Kids then describe the
	// content all the same.
	Loc  int `json:",omitempty"`
	At   int `json:",omitempty"`
	Same int `json:",omitempty"`
	In   int `json:",omitempty"` // location of an interface's dynamic value
	// with Same: the elements from Lo up to Hi (if positive), sharing the array
	Lo int `json:",omitempty"`
	Hi int `json:",omitempty"`
}

// DCase is a template data value and the import table it is rebuilt against.
type DCase struct {
	Own MPkg
	Ext []*MPkg
	Pre []RegM // registrations made before
	T   *DT
	V   *DV
	// changes made to the value after it was used, before it is used again
	Mods []DMod `json:",omitempty"`
}

// DMod sets a slot of a value.
type DMod struct {
	Loc int
	T   *DT
	V   *DV
}

var leafTypes = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "int64": reflect.TypeOf(int64(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"float32": reflect.TypeOf(float32(0)), "complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
	"int": reflect.TypeOf(0), "uint8": reflect.TypeOf(uint8(0)), "string": reflect.TypeOf(""), "float64": reflect.TypeOf(0.5), "bool": reflect.TypeOf(false), "bytes": reflect.TypeOf([]byte(nil)),
	"time.Duration": reflect.TypeOf(time.Second), "time.Time": reflect.TypeOf(time.Time{}), "*big.Int": reflect.TypeOf((*big.Int)(nil)), "func": reflect.TypeOf(func() {}), "chan": reflect.TypeOf(make(chan int)),
	"Package": reflect.TypeOf(g.Package{}), "Symbol": reflect.TypeOf(g.Symbol{}), "MethodReference": reflect.TypeOf(g.MethodReference{}), "Signature": reflect.TypeOf(g.Signature{}),
	"ConstSpec": reflect.TypeOf(g.ConstSpec{}), "VarSpec": reflect.TypeOf(g.VarSpec{}), "TypeSpec": reflect.TypeOf(g.TypeSpec{}), "FuncSpec": reflect.TypeOf(g.FuncSpec{}),
	"InterfaceEmbed": reflect.TypeOf(g.InterfaceEmbed{}), "InterfaceMethod": reflect.TypeOf(g.InterfaceMethod{}), "FieldSpec": reflect.TypeOf(g.FieldSpec{}), "ReceiverSpec": reflect.TypeOf(g.ReceiverSpec{}),
	"ConstDecl": reflect.TypeOf(g.ConstDecl{}), "VarDecl": reflect.TypeOf(g.VarDecl{}), "TypeDecl": reflect.TypeOf(g.TypeDecl{}), "ImportSpec": reflect.TypeOf(g.ImportSpec{}),
	"FieldType": reflect.TypeOf(g.FieldType{}), "ArgType": reflect.TypeOf(g.ArgType{}), "MethodType": reflect.TypeOf(g.MethodType{}),
	"*types.Package": reflect.TypeOf((*types.Package)(nil)), "*types.Named": reflect.TypeOf((*types.Named)(nil)), "*types.Func": reflect.TypeOf((*types.Func)(nil)),
	"any": reflect.TypeOf((*any)(nil)).Elem(), "TypeName": reflect.TypeOf((*g.TypeName)(nil)).Elem(), "SymbolOrMethodRef": reflect.TypeOf((*g.SymbolOrMethodRef)(nil)).Elem(),
	"TypeNameOrSpec": reflect.TypeOf((*g.TypeNameOrSpec)(nil)).Elem(), "FileElement": reflect.TypeOf((*g.FileElement)(nil)).Elem(), "InterfaceElement": reflect.TypeOf((*g.InterfaceElement)(nil)).Elem(),
	"fmt.Stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), "error": reflect.TypeOf((*error)(nil)).Elem(),
	"reflect.Type": reflect.TypeOf((*reflect.Type)(nil)).Elem(), "types.Type": reflect.TypeOf((*types.Type)(nil)).Elem(), "types.Object": reflect.TypeOf((*types.Object)(nil)).Elem(),
	"zNode": reflect.TypeOf(zNode{}), "zEmb": reflect.TypeOf(zEmb{}), "zPriv": reflect.TypeOf(zPriv{}), "zSym": reflect.TypeOf(zSym{}), "zMap": reflect.TypeOf(zMap(nil)), "zList": reflect.TypeOf(zList(nil)),
	"zGen": reflect.TypeOf(zGen[g.Symbol]{}), "zStr": reflect.TypeOf(zStr("")), "zIface": reflect.TypeOf((*zIface)(nil)).Elem(), "zImpl": reflect.TypeOf(zImpl{}), "zDeep": reflect.TypeOf(zDeep{}),
	"k0.R": reflect.TypeOf(k0.R{}), "k1.R": reflect.TypeOf(k1.R{}), "k2.R": reflect.TypeOf(k2.R{}),
	"zPtr": reflect.TypeOf(zPtr(nil)), "zPtrSym": reflect.TypeOf(zPtrSym(nil)), "zTree": reflect.TypeOf(zTree{}),
}

// zTypes are the ones that are built like what they are made of.
var zTypes = map[string]bool{"zNode": true, "zEmb": true, "zPriv": true, "zSym": true, "zMap": true, "zList": true, "zGen": true, "zImpl": true, "zDeep": true, "zPtr": true, "zPtrSym": true, "zTree": true}

// Named types a user could have.
type zNode struct {
	Val  g.Symbol
	Next *zNode
	kids []zNode
	N    int
}
type zEmb struct {
	g.Symbol
	*zPriv
	Extra string
}
type zPriv struct {
	t  g.TypeName
	p  g.Package
	n  int
	a  any
	Ex *g.Symbol
}
type zSym g.Symbol
type zMap map[g.Symbol]any
type zList []*g.Package
type zGen[T any] struct {
	V    T
	L    []T
	priv T
}
type zStr string
type zIface interface{ Z() g.Package }
type zImpl struct{ P g.Package }
type zPtr *zPriv
type zPtrSym *g.Symbol
type zTree struct {
	Parent, Next *zTree
	Refs         map[string]*g.Symbol
	Kids         []*zTree
	Any          any
	Ref          g.Symbol
}
type zDeep struct {
	arr [2]struct {
		m map[string]g.TypeName
		s []fmt.Stringer
	}
	Pub  struct{ in *struct{ S g.Symbol } }
	last g.MethodReference
}

func (z zImpl) Z() g.Package { return z.P }

var (
	leafByType = map[reflect.Type]string{}
	someFunc   = func() {}
	someChan   = make(chan int)
	someErr    = errors.New("an error")
	// interfaces and the dynamic types that fit them (besides "any")
	dynFor = map[string][]string{
		"TypeName":          {"TypeName!"},
		"SymbolOrMethodRef": {"Symbol", "MethodReference", "*Symbol", "*MethodReference"},
		"TypeNameOrSpec":    {"TypeName!", "*TypeSpec"},
		"FileElement":       {"*ConstDecl", "*VarDecl", "*TypeDecl", "*FuncSpec"},
		"InterfaceElement":  {"*InterfaceEmbed", "*InterfaceMethod"},
		"fmt.Stringer": {"Symbol", "Package", "MethodReference", "*Symbol", "*Package", "TypeName!", "reflect.Type!", "types.Type!", "types.Object!", "*types.Package", "*ConstSpec", "*VarSpec", "*TypeSpec", "*FuncSpec",
			"time.Duration", "*InterfaceMethod", "*InterfaceEmbed", "*FieldSpec", "*big.Int"},
		"error":        {"error!"},
		"reflect.Type": {"reflect.Type!"},
		"types.Type":   {"types.Type!"},
		"types.Object": {"types.Object!"},
		"zIface":       {"zImpl", "*zImpl"},
	}
	// dynamic types an interface{} holds
	anyDyn = []string{"Symbol", "Package", "MethodReference", "*Symbol", "*Package", "*MethodReference", "TypeName!", "reflect.Type!", "types.Type!", "types.Object!", "*types.Package", "Signature", "*Signature",
		"*ConstSpec", "*VarSpec", "*TypeSpec", "*FuncSpec", "ConstSpec", "VarSpec", "TypeSpec", "*InterfaceMethod", "*InterfaceEmbed", "int", "string", "bool", "zStr", "float64", "error!", "func", "time.Duration", "*ConstDecl", "*TypeDecl", "time.Time", "zPtr", "zPtrSym", "*zTree"}
)

func init() {
	for k, t := range leafTypes {
		leafByType[t] = k
	}
}

func comparableOnly(ks []string) []string {
	var r []string
	for _, k := range ks {
		if t := leafTypes[k]; t == nil || t.Comparable() {
			r = append(r, k)
		}
	}
	return r
}

// rtype is the Go type of a DT.
func (d *DT) rtype() reflect.Type {
	switch d.K {
	case "slice":
		return reflect.SliceOf(d.Elem.rtype())
	case "array":
		return reflect.ArrayOf(d.Len, d.Elem.rtype())
	case "ptr":
		return reflect.PointerTo(d.Elem.rtype())
	case "map":
		return reflect.MapOf(d.Key.rtype(), d.Elem.rtype())
	case "struct":
		var fs []reflect.StructField
		for _, f := range d.Fields {
			sf := reflect.StructField{Name: f.Name, Type: f.T.rtype()}
			if !exported(f.Name) {
				sf.PkgPath = "verif/harness"
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	if d.isDynMark() {
		harnessBug("type of a dynamic marker %s", d.K)
	}
	t, ok := leafTypes[d.K]
	if !ok {
		harnessBug("no type %q", d.K)
	}
	return t
}

// isDynMark: a value without a fixed Go type ("TypeName!" and so on).
func (d *DT) isDynMark() bool { return strings.HasSuffix(d.K, "!") }

// dtOf describes a Go type made of known parts.
func dtOf(t reflect.Type) *DT {
	if k, ok := leafByType[t]; ok {
		return &DT{K: k}
	}
	switch t.Kind() {
	case reflect.Slice:
		return &DT{K: "slice", Elem: dtOf(t.Elem())}
	case reflect.Array:
		return &DT{K: "array", Elem: dtOf(t.Elem()), Len: t.Len()}
	case reflect.Ptr:
		return &DT{K: "ptr", Elem: dtOf(t.Elem())}
	case reflect.Map:
		return &DT{K: "map", Key: dtOf(t.Key()), Elem: dtOf(t.Elem())}
	case reflect.Struct:
		d := &DT{K: "struct"}
		for i := 0; i < t.NumField(); i++ {
			d.Fields = append(d.Fields, DF{t.Field(i).Name, dtOf(t.Field(i).Type)})
		}
		return d
	}
	harnessBug("no description of %v", t)
	return nil
}

// ------------------------------------------------------------------ building

// dEnv holds what references in data refer to.
type dEnv struct {
	real  map[string]string
	files map[string]*g.GoFile
	elems map[string]*dElems
	locs  map[int]reflect.Value
}

// dElems are the elements of one generated package.
type dElems struct {
	c, c2 *g.ConstSpec
	v     *g.VarSpec
	t     *g.TypeSpec
	it    *g.TypeSpec
	f, m  *g.FuncSpec
	im    *g.InterfaceMethod
	ie    *g.InterfaceEmbed
	fd    *g.FieldSpec
	cd    *g.ConstDecl
	vd    *g.VarDecl
	td    *g.TypeDecl
}

func newDEnv(c *DCase) *dEnv {
	e := &dEnv{real: map[string]string{"unsafe": "unsafe", c.Own.Path: c.Own.Name}, elems: map[string]*dElems{}, locs: map[int]reflect.Value{}}
	e.elems[""] = newDElems("", "")
	for _, p := range append([]*MPkg{&c.Own}, c.Ext...) {
		e.real[p.Path] = p.Name
		e.elems[p.Path] = newDElems(p.Path, p.Name)
	}
	return e
}

// newDElems makes one element of each kind, in a file unless path is empty.
func newDElems(path, name string) *dElems {
	sym := g.Symbol{Name: "I0", Package: g.Package{ImportPath: path, Name: name}}
	x := &dElems{}
	x.c = g.NewConst("GC").SetComment("c").Initialize("%d", 1)
	x.c2 = g.NewConst("GC1", "GC2").Initialize("1, 2")
	x.v = g.NewVar("GV").SetType(g.IntType)
	x.fd = g.NewField("Fld", g.PointerType(g.NamedType(sym))).SetTag("x").SetComment("f")
	x.t = g.NewStructTypeSpec("GT", x.fd)
	x.im = g.NewInterfaceMethod("Meth").AddArg("a", g.NamedType(sym)).AddResult("", g.IntType).SetComment("m")
	x.ie = g.NewInterfaceEmbed(sym).SetComment("e")
	x.it = g.NewInterfaceTypeSpec("GI", x.ie, x.im)
	x.f = g.NewFunc("GF").AddArg("a", g.NamedType(sym)).Println("x")
	x.m = g.NewMethod(g.NewPointerReceiverForType("r", x.t), "GM").AddResult("", g.StringType)
	x.cd, x.vd, x.td = g.NewConstDecl(x.c, x.c2), g.NewVarDecl(x.v), g.NewTypeDecl(x.t, x.it)
	if path != "" {
		f := g.NewGoFile("f.go", path, name)
		f.AddElement(x.cd)
		f.AddElement(x.vd)
		f.AddElement(x.td)
		f.AddElement(x.f)
		f.AddElement(x.m)
	}
	return x
}

// settable gives a value that can be set, also for unexported fields.
func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// build makes the value. The result is addressable.
func (e *dEnv) build(t *DT, v *DV) reflect.Value {
	r := reflect.New(t.rtype()).Elem()
	e.set(r, t, v)
	return r
}

func (e *dEnv) set(r reflect.Value, t *DT, v *DV) {
	if v == nil {
		return
	}
	r = settable(r)
	if v.Loc > 0 {
		e.locs[v.Loc] = r
	}
	if v.Nil {
		return
	}
	if l := e.locs[v.Same]; l.IsValid() && l.Type() == r.Type() && (v.Hi == 0 || v.Hi <= l.Len()) {
		if v.Hi > 0 {
			l = l.Slice(v.Lo, v.Hi)
		}
		r.Set(l)
		return
	}
	if l := e.locs[v.At]; l.IsValid() && l.Addr().Type() == r.Type() {
		r.Set(l.Addr())
		return
	}
	if (v.At > 0 || v.Same > 0) && len(v.Kids) == 0 && r.Kind() != reflect.Interface {
		return
	}
	switch t.K {
	case "slice":
		r.Set(reflect.MakeSlice(r.Type(), len(v.Kids), len(v.Kids)))
		for i, k := range v.Kids {
			e.set(r.Index(i), t.Elem, k)
		}
		return
	case "array":
		for i, k := range v.Kids {
			e.set(r.Index(i), t.Elem, k)
		}
		return
	case "ptr":
		p := reflect.New(t.Elem.rtype())
		e.set(p.Elem(), t.Elem, v.Kids[0])
		r.Set(p)
		return
	case "map":
		r.Set(reflect.MakeMap(r.Type()))
		for i, k := range v.Keys {
			r.SetMapIndex(e.build(t.Key, k), e.build(t.Elem, v.Kids[i]))
		}
		return
	case "struct":
		for i := range t.Fields {
			e.set(r.Field(i), t.Fields[i].T, v.Kids[i])
		}
		return
	}
	if r.Kind() == reflect.Interface {
		r.Set(e.dyn(v.Dyn, v))
		return
	}
	if zTypes[t.K] {
		e.set(r, underDT(t), v)
		return
	}
	r.Set(reflect.ValueOf(e.leaf(t.K, v)).Convert(r.Type()))
}

// underDT is the composite a named type is made of.
func underDT(t *DT) *DT {
	rt := leafTypes[t.K]
	switch rt.Kind() {
	case reflect.Struct:
		d := &DT{K: "struct"}
		for i := 0; i < rt.NumField(); i++ {
			d.Fields = append(d.Fields, DF{rt.Field(i).Name, dtOf(rt.Field(i).Type)})
		}
		return d
	case reflect.Map:
		return &DT{K: "map", Key: dtOf(rt.Key()), Elem: dtOf(rt.Elem())}
	case reflect.Slice:
		return &DT{K: "slice", Elem: dtOf(rt.Elem())}
	case reflect.Ptr:
		return &DT{K: "ptr", Elem: dtOf(rt.Elem())}
	}
	return t
}

// dyn makes the dynamic value of an interface.
func (e *dEnv) dyn(t *DT, v *DV) reflect.Value {
	if t.isDynMark() {
		switch t.K {
		case "TypeName!":
			return reflect.ValueOf(v.T.G())
		case "reflect.Type!":
			return reflect.ValueOf(reflectOf(v.T))
		case "types.Type!":
			return reflect.ValueOf((&goEnv{names: e.real, pkg: types.NewPackage("x/x", "x")}).typ(v.T))
		case "types.Object!":
			return reflect.ValueOf(e.object(v))
		case "error!":
			return reflect.ValueOf(someErr)
		}
	}
	return e.build(t, &DV{I: v.I, S: v.S, Sym: v.Sym, M: v.M, T: v.T, Kids: v.Kids, Keys: v.Keys, Dyn: v.Dyn, At: v.At, Same: v.Same, Lo: v.Lo, Hi: v.Hi, Loc: v.In})
}

func (e *dEnv) object(v *DV) types.Object {
	if v.Sym.Path == "" {
		return types.Universe.Lookup(v.Sym.Name)
	}
	o := uniformPkg(v.Sym.Path, e.real[v.Sym.Path]).Scope().Lookup(v.Sym.Name)
	if v.M == "" {
		return o
	}
	n := o.Type().(*types.Named)
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == v.M {
			return n.Method(i)
		}
	}
	return n.Underlying().(*types.Interface).ExplicitMethod(0)
}

func (e *dEnv) leaf(k string, v *DV) any {
	sym := v.Sym.G()
	el := e.elems[v.Sym.Path]
	switch k {
	case "int", "float64", "time.Duration", "uint8", "int8", "int64", "uint16", "uint32", "uint64", "uintptr", "float32":
		return v.I
	case "complex64", "complex128":
		return complex(float64(v.I/4), float64(v.I%4))
	case "string", "zStr":
		return v.S
	case "bytes":
		return []byte(v.S)
	case "bool":
		return v.I%2 == 1
	case "time.Time":
		return time.Unix(int64(v.I), 0).UTC()
	case "*big.Int":
		return big.NewInt(int64(v.I))
	case "func":
		return someFunc
	case "chan":
		return someChan
	case "Package":
		return sym.Package
	case "Symbol":
		return sym
	case "k0.R":
		return k0.R{V: sym}
	case "k1.R":
		return k1.R{V: sym}
	case "k2.R":
		return k2.R{V: sym}
	case "MethodReference":
		return g.MethodReference{Type: sym, Method: v.M}
	case "Signature":
		return *v.T.GSig()
	case "ConstSpec":
		if v.I%2 == 1 {
			return *el.c2
		}
		return *el.c
	case "VarSpec":
		return *el.v
	case "TypeSpec":
		if v.I%2 == 1 {
			return *el.it
		}
		return *el.t
	case "FuncSpec":
		if v.I%2 == 1 {
			return *el.m
		}
		return *el.f
	case "InterfaceEmbed":
		return *el.ie
	case "InterfaceMethod":
		return *el.im
	case "FieldSpec":
		return *el.fd
	case "ReceiverSpec":
		return *el.m.Receiver
	case "ConstDecl":
		return *el.cd
	case "VarDecl":
		return *el.vd
	case "TypeDecl":
		return *el.td
	case "ImportSpec":
		return g.ImportSpec{PackageAlias: v.S, ImportPath: sym.Package.ImportPath}
	case "ArgType":
		return g.ArgType{Name: v.S, Type: v.T.G()}
	case "FieldType":
		return g.FieldType{Name: v.S, Type: v.T.G(), Tag: "t"}
	case "MethodType":
		return g.MethodType{Name: v.S, Signature: *v.T.GSig()}
	case "*types.Package":
		return uniformPkg(v.Sym.Path, e.real[v.Sym.Path])
	case "*types.Named":
		return uniformPkg(v.Sym.Path, e.real[v.Sym.Path]).Scope().Lookup(v.Sym.Name).Type()
	case "*types.Func":
		return uniformPkg(v.Sym.Path, e.real[v.Sym.Path]).Scope().Lookup(v.Sym.Name)
	}
	harnessBug("no leaf %q", k)
	return nil
}

// ---------------------------------------------------------------- generating

type dGen struct {
	narrow int // layers of very deep data
	t      R
	c      *DCase
	tg     *TGen
	trefl  *TGen
	unexp  bool
	key    bool // drawing a map key
	// maps may have so many more entries
	moreKeys int
	refs     int
	feats    map[string]bool
	// finished values, by type
	done map[reflect.Type][]*DV
	all  []DMod
	locs int
	once bool // no values that have been there before
	// values under construction, and whether pointers may point back at them
	path []DMod
	cyc  bool
}

func genDCase(t R) (*DCase, *dGen) {
	var ext []*MPkg
	for len(ext) == 0 {
		ext = genPkgs(t, 1, 4, false)
	}
	c, d := newDCase(t, ext)
	c.T, c.V = d.root()
	if rP(t, 4) {
		d.once = true
		all := d.all
		for i := rInt(t, 1, 3); i > 0 && len(all) > 0; i-- {
			o := rPick(t, all)
			if o.V.Loc == 0 {
				d.locs++
				o.V.Loc = d.locs
			}
			c.Mods = append(c.Mods, DMod{o.V.Loc, o.T, d.val(o.T, 2)})
			d.feats["changed after use"] = true
		}
	}
	return c, d
}

// root draws data, now and then nested very deep.
func (d *dGen) root() (*DT, *DV) {
	t, n := d.typ(4, false), 5
	if rapid.IntRange(0, 63).Draw(d.t, "deep") == 63 {
		k := rInt(d.t, 5, 30)
		for i := 0; i < k; i++ {
			switch rInt(d.t, 0, 5) {
			case 0:
				t = &DT{K: "ptr", Elem: t}
			case 1:
				t = &DT{K: "slice", Elem: t}
			case 2:
				t = &DT{K: "array", Len: 1, Elem: t}
			case 3:
				t = &DT{K: "map", Key: &DT{K: "string"}, Elem: t}
			default:
				t = &DT{K: "struct", Fields: []DF{{"F0", t}, {"F1", &DT{K: "Package"}}}}
			}
		}
		n += k
		d.feats["very deep"] = true
		d.narrow = k
	}
	return t, d.val(t, n)
}

// newDCase gives a case without data yet.
func newDCase(t R, ext []*MPkg) (*DCase, *dGen) {
	c := &DCase{Ext: ext}
	c.Own = MPkg{Path: "ex.com/own/alpha", Name: "alpha"}
	for i := rInt(t, 0, 2); i > 0; i-- {
		e := rPick(t, c.Ext)
		n := e.Name
		if rP(t, 4) {
			n = ""
		}
		c.Pre = append(c.Pre, RegM{e.Path, n})
	}
	d := &dGen{t: t, c: c, unexp: true, cyc: true, feats: map[string]bool{}, done: map[reflect.Type][]*DV{}}
	d.tg = &TGen{R: t, Named: append(allNamed(c.Ext), NamedInfo{Sym: MSym{c.Own.Path, c.Own.Name, "T9"}, Comparable: true}), Blank: 3, Depth: 2}
	var rn []NamedInfo
	for _, e := range c.Ext {
		if cp := catByPath(e.Path); cp != nil && cp.Name == e.Name {
			for _, n := range uniformNamed(e) {
				if n.Sym.Name != "A0" {
					rn = append(rn, n)
				}
			}
		}
	}
	d.trefl = &TGen{R: t, Named: rn, Reflect: true, Depth: 2}
	return c, d
}

func (d *dGen) typ(n int, key bool) *DT {
	if key {
		switch rInt(d.t, 0, 10) {
		case 0:
			return &DT{K: "string"}
		case 7:
			return &DT{K: rPick(d.t, dBasicKeys)}
		case 8:
			if rP(d.t, 5) {
				return d.pointerKey()
			}
			return &DT{K: "ptr", Elem: &DT{K: rPick(d.t, []string{"Symbol", "Package", "string"})}}
		case 9:
			return d.compositeKey()
		case 10:
			return &DT{K: rPick(d.t, []string{"TypeName", "fmt.Stringer", "SymbolOrMethodRef"})}
		case 1:
			return &DT{K: "int"}
		case 2:
			return &DT{K: "Symbol"}
		case 3:
			return &DT{K: "Package"}
		case 4:
			return &DT{K: "any"}
		case 5:
			return &DT{K: "MethodReference"}
		}
		return &DT{K: "array", Len: rInt(d.t, 1, 2), Elem: &DT{K: rPick(d.t, []string{"Symbol", "Symbol", "Package", "MethodReference", "any"})}}
	}
	if n <= 0 {
		return d.leafType()
	}
	switch rWeighted(d.t, 3, 2, 1, 2, 3, 4, 3) {
	case 0:
		return d.leafType()
	case 1:
		return &DT{K: "slice", Elem: d.typ(n-1, false)}
	case 2:
		return &DT{K: "array", Len: rInt(d.t, 0, 3), Elem: d.typ(n-1, false)}
	case 3:
		return &DT{K: "map", Key: d.typ(n-1, true), Elem: d.typ(n-1, false)}
	case 4:
		return &DT{K: "ptr", Elem: d.typ(n-1, false)}
	case 5:
		st := &DT{K: "struct"}
		k := rInt(d.t, 1, 4)
		for i := 0; i < k; i++ {
			name := fmt.Sprintf("F%d", i)
			if d.unexp && rP(d.t, 5) {
				name = fmt.Sprintf("f%d", i)
			}
			st.Fields = append(st.Fields, DF{name, d.typ(n-1, false)})
		}
		return st
	}
	if !d.unexp {
		return &DT{K: rPick(d.t, []string{"zSym", "zMap", "zList", "zImpl", "zPtrSym", "zTree", "zTree"})}
	}
	return &DT{K: rPick(d.t, []string{"zNode", "zEmb", "zPriv", "zSym", "zMap", "zList", "zGen", "zImpl", "zDeep", "zPtr", "zPtrSym", "zTree", "zTree"})}
}

// dBasicKeys are map keys that refer to nothing.
var dBasicKeys = []string{"zStr", "time.Duration", "float64", "uint8", "bool", "bool", "int8", "int64", "uint16", "uint32", "uint64", "uintptr", "float32", "complex64", "complex128"}

var dLeaves = []string{"any", "any", "any", "Symbol", "Package", "MethodReference", "TypeName", "TypeName", "Signature", "SymbolOrMethodRef", "TypeNameOrSpec", "FileElement", "InterfaceElement", "fmt.Stringer", "reflect.Type",
	"types.Type", "types.Object", "*types.Package", "*types.Named", "*types.Func", "ConstSpec", "VarSpec", "TypeSpec", "FuncSpec", "InterfaceEmbed", "InterfaceMethod", "FieldSpec", "ReceiverSpec", "ConstDecl", "VarDecl", "TypeDecl",
	"ImportSpec", "FieldType", "ArgType", "MethodType", "int", "string", "float64", "bool", "bytes", "time.Duration", "time.Time", "*big.Int", "func", "chan", "error", "zIface", "zStr",
	"complex128", "uint16", "uintptr"}

// compositeKey draws a struct type for map keys.
func (d *dGen) compositeKey() *DT {
	a := DF{"A", &DT{K: rPick(d.t, []string{"Symbol", "Symbol", "Package", "MethodReference", "TypeName", "any"})}}
	b := DF{"b", &DT{K: rPick(d.t, []string{"string", "int"})}}
	if rP(d.t, 3) {
		b.T.K = rPick(d.t, dBasicKeys)
	}
	if d.unexp && rP(d.t, 3) {
		a.Name = "a"
	}
	if rP(d.t, 3) {
		return &DT{K: "struct", Fields: []DF{b, a}}
	}
	return &DT{K: "struct", Fields: []DF{a, b}}
}

// ringKey draws a map key: a pointer at a zTree that is its own parent or
// successor. The string identifies it.
func (d *dGen) ringKey() (*DV, string) {
	d.locs++
	was := d.key
	d.key = true
	ref := d.val(&DT{K: "Symbol"}, 1)
	d.key = was
	back, null := &DV{At: d.locs}, &DV{Nil: true}
	node := &DV{Loc: d.locs, Kids: []*DV{null, null, null, null, null, ref}}
	shape := rInt(d.t, 1, 4)
	if shape&1 > 0 {
		node.Kids[0] = back
	}
	if shape&2 > 0 {
		node.Kids[1] = back
	}
	if shape == 4 {
		node.Kids[3] = &DV{Kids: []*DV{back}}
	}
	d.feats["keys that point at themselves"] = true
	return &DV{Kids: []*DV{node}}, fmt.Sprint("ring ", shape, d.keyID(&DT{K: "Symbol"}, ref))
}

// pointerKey draws a pointer type, for map keys, with content that is no map key itself.
func (d *dGen) pointerKey() *DT {
	if rP(d.t, 1) {
		return &DT{K: "ptr", Elem: &DT{K: "zTree"}}
	}
	leaf := func() *DT {
		return &DT{K: rPick(d.t, []string{"Symbol", "Symbol", "Package", "TypeName", "string", "int", rPick(d.t, dBasicKeys)})}
	}
	part := func() *DT {
		switch rInt(d.t, 0, 4) {
		case 0:
			return leaf()
		case 1:
			return &DT{K: "slice", Elem: leaf()}
		case 2:
			return &DT{K: "ptr", Elem: &DT{K: "slice", Elem: leaf()}}
		}
		return &DT{K: "map", Key: &DT{K: rPick(d.t, []string{"string", "int", "zStr"})}, Elem: leaf()}
	}
	if rP(d.t, 4) {
		return &DT{K: "ptr", Elem: part()}
	}
	st := &DT{K: "struct"}
	for i, n := 0, rInt(d.t, 1, 3); i < n; i++ {
		st.Fields = append(st.Fields, DF{fmt.Sprintf("F%d", i), part()})
	}
	return &DT{K: "ptr", Elem: st}
}

func (d *dGen) leafType() *DT {
	k := rPick(d.t, dLeaves)
	if !strings.HasPrefix(k, "*") && leafTypes[k].Kind() == reflect.Struct && rP(d.t, 5) {
		return &DT{K: "ptr", Elem: &DT{K: k}}
	}
	return &DT{K: k}
}

func (d *dGen) sym(elem ...string) MSym {
	p := rPick(d.t, d.c.Ext)
	s := MSym{p.Path, p.Name, rPick(d.t, elem)}
	switch {
	case rP(d.t, 3):
		s.Path, s.PkgName = d.c.Own.Path, d.c.Own.Name
	case rP(d.t, 3):
		s.PkgName = ""
	case rP(d.t, 1):
		s.Path, s.PkgName = "", ""
	}
	return s
}

func (d *dGen) extSym(elem ...string) MSym {
	p := rPick(d.t, d.c.Ext)
	return MSym{p.Path, p.Name, rPick(d.t, elem)}
}

func isNillable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan:
		return true
	}
	return false
}

// size draws the number of elements of a slice or map.
func (d *dGen) size(n int) int {
	if d.narrow > 0 && n > 5 {
		return 1
	}
	if n <= 2 {
		return rSize(d.t, 20, 0, 1, 2, 3)
	}
	return rInt(d.t, 0, 3)
}

// val draws a value; n bounds the nesting.
func (d *dGen) val(t *DT, n int) *DV {
	rt := t.rtype()
	v := d.again(rt)
	if v == nil {
		v = d.fresh(t, rt, n)
	}
	if !d.key && !d.once {
		if len(d.done[rt]) < 8 {
			d.done[rt] = append(d.done[rt], v)
		}
		d.all = append(d.all, DMod{T: t, V: v})
	}
	return v
}

// again draws, now and then, a pointer, slice or map that has been there before, or
// a pointer at something that has been there before.
func (d *dGen) again(rt reflect.Type) *DV {
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
	default:
		return nil
	}
	if d.key || d.once || leafByType[rt] != "" && leafByType[rt][0] != 'z' {
		return nil
	}
	loc := func(ds []*DV) *DV {
		v := rPick(d.t, ds)
		if v.Loc == 0 {
			d.locs++
			v.Loc = d.locs
		}
		return v
	}
	if rt.Kind() == reflect.Ptr && rt.Name() == "" && d.cyc {
		var up []*DV
		for _, a := range d.path {
			if a.T.rtype() == rt.Elem() {
				up = append(up, a.V)
			}
		}
		if len(up) > 0 && rP(d.t, 5) {
			d.feats["cycle"] = true
			return &DV{At: loc(up).Loc}
		}
	}
	if rt.Kind() != reflect.Ptr && d.cyc {
		var up []*DV
		for _, a := range d.path {
			if a.T.rtype() == rt {
				up = append(up, a.V)
			}
		}
		if len(up) > 0 && rP(d.t, 5) {
			d.feats["contains itself"] = true
			return &DV{Same: loc(up).Loc}
		}
	}
	if old := d.done[rt]; len(old) > 0 && rP(d.t, 3) {
		o := loc(old)
		d.feats["the same "+rt.Kind().String()+" again"] = true
		v := *o
		v.Loc, v.Same, v.Lo, v.Hi = 0, o.Loc, 0, 0
		if rt.Kind() == reflect.Slice && len(v.Kids) > 1 && rP(d.t, 4) {
			d.feats["part of a slice again"] = true
			v.Hi = rInt(d.t, 1, len(v.Kids))
			v.Lo = rInt(d.t, 0, v.Hi-1)
			v.Kids = v.Kids[v.Lo:v.Hi]
		}
		return &v
	}
	if rt.Kind() == reflect.Ptr && rP(d.t, 3) {
		if old := d.done[rt.Elem()]; len(old) > 0 {
			o := loc(old)
			d.feats["pointer at another slot"] = true
			return &DV{At: o.Loc, Kids: []*DV{o}}
		}
	}
	return nil
}

func (d *dGen) fresh(t *DT, rt reflect.Type, n int) *DV {
	v := &DV{}
	if isNillable(rt) && (n <= 0 || (d.narrow == 0 || n <= 5) && rP(d.t, 2)) {
		v.Nil = true
		return v
	}
	d.path = append(d.path, DMod{T: t, V: v})
	defer func() { d.path = d.path[:len(d.path)-1] }()
	if zTypes[t.K] {
		d.feats[t.K] = true
		t = underDT(t)
	}
	switch t.K {
	case "slice":
		for i := d.size(n); i > 0; i-- {
			v.Kids = append(v.Kids, d.val(t.Elem, n-1))
		}
	case "array":
		for i := 0; i < t.Len; i++ {
			v.Kids = append(v.Kids, d.val(t.Elem, n-1))
		}
	case "ptr":
		v.Kids = []*DV{d.val(t.Elem, n-1)}
	case "map":
		seen := map[string]bool{}
		for i := d.size(n) + rInt(d.t, 0, d.moreKeys); i > 0; i-- {
			was, kn := d.key, 1
			if t.Key.K == "ptr" && t.Key.rtype().Elem().Kind() != reflect.String && leafTypes[t.Key.Elem.K] == nil {
				kn = 5
				d.feats["pointer keys at composite values"] = true
			}
			d.key = true
			var k *DV
			var id string
			if t.Key.K == "ptr" && t.Key.Elem.K == "zTree" {
				k, id = d.ringKey()
			} else {
				k = d.val(t.Key, kn)
				id = d.keyID(t.Key, k)
			}
			d.key = was
			if t.Key.K == "ptr" && !k.Nil && t.Elem.isOrdered() && seen[id] {
				d.feats["pointer keys with equal content"] = true
				id = fmt.Sprint(id, len(v.Keys))
			}
			if seen[id] {
				continue
			}
			seen[id] = true
			v.Keys = append(v.Keys, k)
			v.Kids = append(v.Kids, d.val(t.Elem, n-1))
		}
		if len(v.Keys) > 1 {
			d.feats["map with several keys"] = true
		}
	case "struct":
		for _, f := range t.Fields {
			before := d.refs
			v.Kids = append(v.Kids, d.val(f.T, n-1))
			if !exported(f.Name) && d.refs > before {
				d.feats["reference in unexported field"] = true
			}
		}
	default:
		if rt.Kind() == reflect.Interface {
			d.iface(t, v, n)
			d.feats["in "+t.K] = true
		} else {
			d.leafVal(t.K, v)
		}
	}
	return v
}

func (d *dGen) iface(t *DT, v *DV, n int) {
	if t.K == "any" && d.cyc && !d.key && !d.once && rapid.IntRange(0, 15).Draw(d.t, "back") == 15 {
		a := rPick(d.t, d.path)
		if a.V.Loc == 0 {
			d.locs++
			a.V.Loc = d.locs
		}
		if k := a.T.rtype().Kind(); (k == reflect.Slice || k == reflect.Map) && rP(d.t, 8) {
			d.feats["contains itself"] = true
			v.Dyn, v.Same = a.T, a.V.Loc
			return
		}
		d.feats["cycle"] = true
		v.Dyn, v.At = &DT{K: "ptr", Elem: a.T}, a.V.Loc
		return
	}
	if t.K == "any" && n > 1 && rP(d.t, 5) {
		v.Dyn = d.typ(2, false)
		for v.Dyn.rtype().Kind() == reflect.Interface || v.Dyn.K == "any" {
			v.Dyn = &DT{K: "slice", Elem: v.Dyn}
		}
		w := d.val(v.Dyn, n-1)
		if w.Nil {
			// a typed nil inside an interface
			d.feats["typed nil in interface"] = true
			if v.Dyn.rtype().Kind() == reflect.Ptr {
				v.Nil = true
				v.Dyn = nil
				return
			}
		}
		v.I, v.S, v.Sym, v.M, v.T, v.Kids, v.Keys = w.I, w.S, w.Sym, w.M, w.T, w.Kids, w.Keys
		v.At, v.Same, v.Lo, v.Hi, v.In = w.At, w.Same, w.Lo, w.Hi, w.Loc
		if v.Dyn.rtype().Kind() == reflect.Interface {
			harnessBug("interface in interface")
		}
		return
	}
	if t.K == "any" && d.key && n > 0 && rP(d.t, 3) {
		v.Dyn = d.compositeKey()
		if rP(d.t, 4) {
			v.Dyn = &DT{K: "array", Len: rInt(d.t, 1, 2), Elem: &DT{K: rPick(d.t, []string{"Symbol", "Package", "MethodReference"})}}
		}
		d.feats["composite in interface key"] = true
		v.Kids = d.val(v.Dyn, n-1).Kids
		return
	}
	opts := dynFor[t.K]
	if t.K == "any" {
		opts = anyDyn
	}
	if d.key {
		opts = comparableOnly(opts)
	}
	k := rPick(d.t, opts)
	if t.K == "any" && d.key && rP(d.t, 4) {
		// types that look alike
		k = rPick(d.t, []string{"*k0.R", "*k1.R", "*k2.R", "k0.R", "k2.R"})
		d.feats["types of packages with the same name"] = true
	}
	switch k {
	case "TypeName!", "types.Type!":
		d.refs++
		v.Dyn = &DT{K: k}
		if k == "TypeName!" {
			v.T = d.tg.Type()
		} else {
			tg := *d.tg
			tg.Named = allNamed(d.c.Ext)
			v.T = tg.Type()
		}
		return
	case "reflect.Type!":
		d.refs++
		v.Dyn = &DT{K: k}
		v.T = d.trefl.Type()
		if !reflectable(v.T) {
			v.T = d.trefl.leaf(false)
		}
		return
	case "types.Object!":
		d.refs++
		v.Dyn = &DT{K: k}
		v.Sym = d.extSym("T0", "V0", "F0", "C0", "I0", "A0")
		if v.Sym.Name == "T0" && rP(d.t, 8) {
			v.M = rPick(d.t, []string{"M0", "PM0"})
		} else if v.Sym.Name == "I0" && rP(d.t, 8) {
			v.M = "MI0"
		}
		if rP(d.t, 2) {
			v.Sym, v.M = MSym{Name: rPick(d.t, universeObjs)}, ""
		}
		return
	case "error!":
		v.Dyn = &DT{K: k}
		return
	}
	if strings.HasPrefix(k, "*") && leafTypes[k] == nil {
		v.Dyn = &DT{K: "ptr", Elem: &DT{K: k[1:]}}
		rt := v.Dyn.rtype()
		if w := d.again(rt); w != nil && !w.Nil {
			v.Kids, v.At, v.Same = w.Kids, w.At, w.Same
			return
		}
		v.Kids = []*DV{{}}
		if zTypes[k[1:]] {
			v.Kids[0] = d.val(v.Dyn.Elem, min(n-1, 2))
		} else {
			d.leafVal(k[1:], v.Kids[0])
		}
		if !d.key && len(d.done[rt]) < 8 {
			d.done[rt] = append(d.done[rt], &DV{Kids: v.Kids})
		}
		return
	}
	v.Dyn = &DT{K: k}
	if zTypes[k] {
		w := d.val(v.Dyn, min(n-1, 2))
		if w.Nil {
			v.Nil, v.Dyn = true, nil
			return
		}
		v.Kids, v.At, v.Same, v.Lo, v.Hi, v.In = w.Kids, w.At, w.Same, w.Lo, w.Hi, w.Loc
		return
	}
	d.leafVal(k, v)
}

func (d *dGen) leafVal(k string, v *DV) {
	d.feats["has "+k] = true
	switch k {
	case "k0.R", "k1.R", "k2.R":
		d.refs++
		v.Sym = d.sym("T0", "V0")
	case "int", "uint8", "float64", "bool", "time.Duration", "time.Time", "*big.Int", "int8", "int64", "uint16", "uint32", "uint64", "uintptr", "float32", "complex64", "complex128":
		v.I = rInt(d.t, 0, 9)
	case "string", "zStr", "bytes":
		v.S = rPick(d.t, []string{"", "x", "T0", "alpha.T0", "é"})
	case "func", "chan":
	case "Package":
		d.refs++
		v.Sym = d.sym("")
	case "Symbol", "ImportSpec":
		d.refs++
		v.Sym = d.sym("T0", "V0", "F0", "C0")
	case "MethodReference":
		d.refs++
		v.Sym, v.M = d.sym("T0", "I0"), rPick(d.t, []string{"M0", "Ü"})
	case "Signature", "MethodType":
		d.refs++
		v.T = d.tg.Sig(1)
	case "ArgType", "FieldType":
		d.refs++
		v.T, v.S = d.tg.Type(), rPick(d.t, []string{"n", "n", "", "_"})
	case "*types.Package", "*types.Named":
		d.refs++
		v.Sym = d.extSym("T0")
	case "*types.Func":
		d.refs++
		v.Sym = d.extSym("F0")
	default: // elements of a generated package
		d.refs++
		if k == "ConstSpec" || k == "TypeSpec" || k == "FuncSpec" {
			v.I = rInt(d.t, 0, 1)
		}
		p := rPick(d.t, d.c.Ext)
		v.Sym = MSym{Path: p.Path, PkgName: p.Name}
		if rP(d.t, 3) {
			v.Sym = MSym{Path: d.c.Own.Path, PkgName: d.c.Own.Name}
		} else if rP(d.t, 2) && k != "InterfaceEmbed" && k != "InterfaceMethod" && k != "FieldSpec" {
			v.Sym = MSym{} // not in a file
		}
	}
}

// ordered are the kinds of values that have an order.
var ordered = map[string]bool{"Symbol": true, "Package": true, "MethodReference": true, "TypeName": true, "string": true}

func (d *DT) isOrdered() bool {
	switch d.K {
	case "slice", "array":
		return d.Elem.isOrdered()
	case "map":
		return (d.Key.K == "string" || d.Key.K == "int") && d.Elem.isOrdered()
	}
	return ordered[d.K]
}

// keyID tells map keys apart after qualification too.
func (d *dGen) keyID(t *DT, v *DV) string {
	if v.Nil {
		return "nil"
	}
	switch t.K {
	case "array", "slice":
		s := ""
		for _, k := range v.Kids {
			s += d.keyID(t.Elem, k) + ","
		}
		return s
	case "map":
		var es []string
		for i, k := range v.Keys {
			es = append(es, d.keyID(t.Key, k)+":"+d.keyID(t.Elem, v.Kids[i]))
		}
		sort.Strings(es)
		return strings.Join(es, ",")
	case "ptr":
		return "pointer to " + d.keyID(t.Elem, v.Kids[0])
	case "struct":
		s := ""
		for i, f := range t.Fields {
			s += d.keyID(f.T, v.Kids[i]) + ";"
		}
		return s
	case "bool":
		return fmt.Sprint(v.I%2 == 1)
	}
	k := t.K
	if v.Dyn != nil {
		k = v.Dyn.K
		if len(v.Dyn.Fields) > 0 || v.Dyn.Key != nil || v.Dyn.Len > 0 {
			return "composite"
		}
		if v.Dyn.Elem != nil {
			w := v.Kids[0]
			return fmt.Sprint(k, v.Dyn.Elem.K, len(v.Kids), w.Sym.Path, w.Sym.Name, w.M, w.I)
		}
	}
	switch k {
	case "Symbol", "types.Object!", "Package", "*types.Package", "MethodReference":
		// equal ones become equal keys
		if k == "Package" || k == "*types.Package" {
			return "package " + v.Sym.Path
		}
		if v.M == "" && k != "MethodReference" {
			k = "reference"
		}
	case "TypeName!", "types.Type!", "reflect.Type!":
		k = "type"
	}
	ty := ""
	if v.T != nil {
		ty = v.T.Canon(true)
	}
	return fmt.Sprint(k, v.I, v.S, v.Sym.Path, v.Sym.Name, v.M, ty)
}

// --------------------------------------------------------------- description

// describer describes values: references by what they refer to, everything
// else by type and content. With a table it describes what they must become.
type describer struct {
	own    string
	tab    map[string]string // path -> local name; nil: leave as is
	purego bool
	noAddr bool            // leave out addresses
	paths  map[string]bool // packages of references met that can be replaced
	extra  map[string]bool // of others
	extras int             // how many others
	path   []visit         // pointers followed to get here
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

var (
	typeNameT = leafTypes["TypeName"]
	symbolT   = leafTypes["Symbol"]
	packageT  = leafTypes["Package"]
	stringerT = leafTypes["fmt.Stringer"]
)

func (d *describer) note(path string) {
	if path != "" && path != d.own && d.paths != nil {
		d.paths[path] = true
	}
}

// q gives what a symbol becomes.
func (d *describer) q(s MSym) MSym {
	if s.Path == "" && s.PkgName == "" {
		return s
	}
	d.note(s.Path)
	if d.tab == nil {
		return s
	}
	if s.Path == d.own {
		s.PkgName = ""
		return s
	}
	s.PkgName = d.tab[s.Path]
	return s
}

func (d *describer) sym(s g.Symbol) string { return d.q(symFromG(s)).canon(true) }
func (d *describer) pkg(p g.Package) string {
	return d.q(MSym{Path: p.ImportPath, PkgName: p.Name}).canon(true)
}
func (d *describer) mt(m *MT) string { return m.MapSyms(d.q).CanonQ() }

func (d *describer) describe(v reflect.Value) string {
	var b strings.Builder
	d.desc(&b, v)
	return b.String()
}

// enter notes that the content of a pointer, slice or map is described next. It
// returns false if that is going on already, and then describes the way back,
// which does not depend on where the description starts.
func (d *describer) enter(b *strings.Builder, at visit) bool {
	for i, p := range d.path {
		if p == at {
			fmt.Fprintf(b, "^%d", len(d.path)-i)
			return false
		}
	}
	d.path = append(d.path, at)
	return true
}

func (d *describer) leave() { d.path = d.path[:len(d.path)-1] }

// converted describes what a go/types or reflect value becomes; ok is false if
// it is not one.
func (d *describer) converted(x any) (repl any, ok bool) {
	switch x := x.(type) {
	case g.TypeName:
		return nil, false
	case reflect.Type:
		return g.TypeNameForReflectType(x), true
	case types.Type:
		return g.TypeNameForGoType(x), true
	case types.Object:
		switch s := g.SymbolForGoObject(x).(type) {
		case g.Symbol:
			return s, true
		case g.MethodReference:
			return &s, true
		case *g.MethodReference:
			return s, true
		}
	case *types.Package:
		return g.PackageForGoType(x), true
	}
	return nil, false
}

func readable(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	harnessBug("value of %v cannot be read", v.Type())
	return v
}

func (d *describer) desc(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	v = readable(v)
	t := v.Type()
	switch t {
	case packageT:
		b.WriteString("Package " + d.pkg(v.Interface().(g.Package)))
		return
	case symbolT:
		b.WriteString("Symbol " + d.sym(v.Interface().(g.Symbol)))
		return
	}
	var content any
	if t.Kind() != reflect.Interface {
		content = v.Interface()
	}
	switch x := content.(type) {
	case g.MethodReference:
		b.WriteString("MethodReference " + d.sym(x.Type) + "." + x.Method)
		return
	case g.Signature:
		b.WriteString("Signature " + d.mt(FromGSig(&x)))
		return
	case g.ConstSpec:
		d.spec(b, "ConstSpec", x.Names, x.Comment, x.Type, x.Initializer, func(i int) g.Symbol { return x.SymbolAt(i) }, x.String)
		return
	case g.VarSpec:
		d.spec(b, "VarSpec", x.Names, x.Comment, x.Type, x.Initializer, func(i int) g.Symbol { return x.SymbolAt(i) }, x.String)
		return
	case g.TypeSpec:
		d.spec(b, fmt.Sprintf("TypeSpec alias %v under %s", x.IsAlias(), FromG(x.Underlying()).CanonQ()), []string{x.Name}, x.Comment, nil, nil, func(int) g.Symbol { return x.ToSymbol() }, x.String)
		return
	case g.FuncSpec:
		d.spec(b, fmt.Sprintf("FuncSpec recv %+v sig %s", x.Receiver, FromGSig(&x.Signature).CanonQ()), []string{x.Name}, x.Comment, nil, nil, func(int) g.Symbol {
			switch s := x.ToSymbol().(type) {
			case g.MethodReference:
				return g.Symbol{Name: s.Type.Name + "." + s.Method, Package: s.Type.Package}
			case g.Symbol:
				return s
			}
			return g.Symbol{}
		}, nil)
		return
	case g.InterfaceEmbed:
		fmt.Fprintf(b, "InterfaceEmbed %q %s", x.Comment, d.sym(x.Type))
		return
	case g.InterfaceMethod:
		fmt.Fprintf(b, "InterfaceMethod %q %s %s", x.Comment, x.Name, d.mt(FromGSig(&x.Signature)))
		return
	case g.FieldSpec:
		fmt.Fprintf(b, "FieldSpec %q %q %q ", x.Comment, x.Name, x.Tag)
		d.desc(b, reflect.ValueOf(&x).Elem().FieldByName("Type"))
		return
	case *types.Named, *types.Func, *types.Package:
		// left alone: what they are is a matter of identity
		if t.Kind() == reflect.Ptr && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(d.ident(x))
		if d.extra != nil {
			if c, ok := d.converted(x); ok {
				d.extras++
				sub := &describer{own: d.own, paths: d.extra}
				sub.convDesc(b2(), c)
			}
		}
		return
	}
	if t.Kind() != reflect.Interface {
		fmt.Fprintf(b, "(%v)", t)
	}
	switch t.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		x := v.Elem().Interface()
		if el := v.Elem(); el.Kind() == reflect.Ptr && el.IsNil() {
			fmt.Fprintf(b, "nil %T", x)
			return
		}
		if tn, ok := x.(g.TypeName); ok {
			b.WriteString("TypeName " + d.mt(FromG(tn)))
			return
		}
		if repl, ok := d.converted(x); ok {
			rt := reflect.TypeOf(repl)
			if d.tab == nil && d.paths == nil || !rt.Implements(t) {
				// stays what it is
				b.WriteString(d.ident(x))
				if d.extra != nil {
					d.extras++
					(&describer{own: d.own, paths: d.extra}).convDesc(b2(), repl)
				}
				return
			}
			d.convDesc(b, repl)
			return
		}
		// copied to be addressable
		c := reflect.New(v.Elem().Type()).Elem()
		c.Set(v.Elem())
		b.WriteString("any:")
		d.desc(b, c)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if t == leafTypes["*big.Int"] {
			b.WriteString(v.Interface().(*big.Int).String())
			return
		}
		if !d.enter(b, visit{v.UnsafePointer(), reflect.PointerTo(t.Elem()), 1}) {
			return
		}
		defer d.leave()
		b.WriteString("&")
		d.desc(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if d.purego && t.Field(i).PkgPath != "" {
				// carried over
				c := reflect.New(f.Type()).Elem()
				c.Set(settable(f))
				b.WriteString(t.Field(i).Name + ": ")
				sub := &describer{own: d.own, purego: true, noAddr: d.noAddr}
				sub.desc(b, c)
				b.WriteString("; ")
				continue
			}
			b.WriteString(t.Field(i).Name + ": ")
			d.desc(b, f)
			b.WriteString("; ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Len() > 0 {
			if !d.enter(b, visit{v.UnsafePointer(), t, v.Len()}) {
				return
			}
			defer d.leave()
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			el := v.Index(i)
			if !el.CanAddr() {
				c := reflect.New(el.Type()).Elem()
				c.Set(el)
				el = c
			}
			d.desc(b, el)
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if !d.enter(b, visit{v.UnsafePointer(), t, 1}) {
			return
		}
		defer d.leave()
		var es []string
		for _, k := range v.MapKeys() {
			kc := reflect.New(k.Type()).Elem()
			kc.Set(k)
			vc := reflect.New(t.Elem()).Elem()
			vc.Set(v.MapIndex(k))
			es = append(es, d.describe(kc)+" => "+d.describe(vc))
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, ", ") + "]")
	case reflect.Func, reflect.Chan:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if !d.noAddr {
			fmt.Fprintf(b, "%x", v.Pointer())
		}
	default:
		fmt.Fprintf(b, "%#v", v.Interface())
	}
}

// ident tells values apart by identity, or by content between processes.
func (d *describer) ident(x any) string {
	if d.noAddr {
		return fmt.Sprintf("%T:%v", x, x)
	}
	return fmt.Sprintf("%T@%p", x, x)
}

func b2() *strings.Builder { return &strings.Builder{} }

// convDesc describes the replacement of a go/types or reflect value.
func (d *describer) convDesc(b *strings.Builder, repl any) {
	switch x := repl.(type) {
	case g.TypeName:
		b.WriteString("TypeName " + d.mt(FromG(x)))
	case g.Symbol:
		b.WriteString("any:Symbol " + d.sym(x))
	case *g.MethodReference:
		b.WriteString("any:(*gopoet.MethodReference)&MethodReference " + d.sym(x.Type) + "." + x.Method)
	case g.Package:
		b.WriteString("any:Package " + d.pkg(x))
	}
}

func (d *describer) spec(b *strings.Builder, kind string, names []string, comment string, typ g.TypeNameOrSpec, init *g.CodeBlock, sym func(int) g.Symbol, str func() string) {
	fmt.Fprintf(b, "%s %q %q type %v ", kind, names, comment, typ)
	if !d.noAddr {
		fmt.Fprintf(b, "init %p ", init)
	}
	for i := range names {
		i := i
		if p, _, _ := caught(func() {
			s := symFromG(sym(i))
			b.WriteString(d.q(s).canon(true) + " ")
		}); p {
			b.WriteString("no symbol ")
		}
	}
	if str != nil && d.tab == nil {
		b.WriteString(strconv.Quote(str()))
	} else if str != nil {
		// the string form follows from the symbols
		b.WriteString(strconv.Quote(d.specString(names, sym)))
	}
}

// specString is the string form that goes with the symbols.
func (d *describer) specString(names []string, sym func(int) g.Symbol) string {
	var r []string
	for i, n := range names {
		if p, _, _ := caught(func() {
			s := d.q(symFromG(sym(i)))
			if s.PkgName == "" {
				n = s.Name
			} else {
				n = s.PkgName + "." + s.Name
			}
		}); p {
			n = names[i]
		}
		r = append(r, n)
	}
	return strings.Join(r, ", ")
}
