package harness

import (
	"go/token"
	"go/types"
	"reflect"
)

// goEnv builds go/types values from models.
type goEnv struct {
	own   map[string]types.Type // types of the case's own package
	names map[string]string     // path -> package name
	pkg   *types.Package
	// lookup, if set, finds named types instead of the above
	lookup func(MSym) types.Type
}

func (e *goEnv) named(s MSym) types.Type {
	if e.lookup != nil {
		return e.lookup(s)
	}
	if s.Path == "" {
		return types.Universe.Lookup(s.Name).Type()
	}
	if s.Path == "unsafe" {
		return types.Typ[types.UnsafePointer]
	}
	if s.Path == ownPath {
		t := e.own[s.Name]
		if t == nil {
			harnessBug("no own type %s", s.Name)
		}
		return t
	}
	return uniformPkg(s.Path, e.names[s.Path]).Scope().Lookup(s.Name).Type()
}

func (e *goEnv) typ(m *MT) types.Type {
	switch m.K {
	case KBasic:
		if m.Basic == reflect.Uint8 && m.Route%2 == 1 {
			return types.Universe.Lookup("byte").Type()
		}
		if m.Basic == reflect.Int32 && m.Route%2 == 1 {
			return types.Universe.Lookup("rune").Type()
		}
		return types.Typ[goBasic[m.Basic]]
	case KNamed:
		return e.named(m.Sym)
	case KPtr:
		return types.NewPointer(e.typ(m.Elem))
	case KSlice:
		return types.NewSlice(e.typ(m.Elem))
	case KArray:
		return types.NewArray(e.typ(m.Elem), m.Len)
	case KMap:
		return types.NewMap(e.typ(m.Key), e.typ(m.Elem))
	case KChan:
		d := types.SendRecv
		switch m.Dir {
		case reflect.SendDir:
			d = types.SendOnly
		case reflect.RecvDir:
			d = types.RecvOnly
		}
		return types.NewChan(d, e.typ(m.Elem))
	case KFunc:
		return e.sig(m, nil)
	case KStruct:
		var fs []*types.Var
		var tags []string
		tagged := 0
		for i, f := range m.Fields {
			t := e.typ(f.T)
			name := f.Name
			if name == "" {
				name = embedName(f.T)
			}
			fs = append(fs, types.NewField(token.NoPos, e.pkg, name, t, f.Name == ""))
			tags = append(tags, f.Tag)
			if f.Tag != "" {
				tagged = i + 1
			}
		}
		return types.NewStruct(fs, tags[:tagged])
	case KIface:
		fn := func(mm MMethod) *types.Func {
			return types.NewFunc(token.NoPos, e.pkg, mm.Name, e.sig(mm.Sig, nil))
		}
		var ms []*types.Func
		var es []types.Type
		if m.Wrap > 0 || m.WrapE > 0 {
			for i := 0; i <= m.WrapN; i++ {
				es = append(es, e.typ(&MT{K: KIface, Methods: m.Methods[:m.Wrap], Embeds: m.Embeds[:m.WrapE]}))
			}
		}
		for _, s := range m.Embeds[m.WrapE:] {
			es = append(es, e.named(s))
		}
		for _, mm := range m.Methods[m.Wrap-m.WrapO:] {
			ms = append(ms, fn(mm))
		}
		return types.NewInterfaceType(ms, es).Complete()
	}
	panic("bad kind")
}

func embedName(m *MT) string {
	if m.K == KPtr {
		m = m.Elem
	}
	if m.K == KBasic {
		return m.Basic.String()
	}
	return m.Sym.Name
}

func (e *goEnv) sig(m *MT, recv *types.Var) *types.Signature {
	tuple := func(as []MArg) *types.Tuple {
		var vs []*types.Var
		for _, a := range as {
			vs = append(vs, types.NewParam(token.NoPos, e.pkg, a.Name, e.typ(a.T)))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(recv, nil, nil, tuple(m.Args), tuple(m.Res), m.Var)
}

// reflectOf builds the reflect.Type of a model made of basic kinds, catalogue
// types and plain constructors.
func reflectOf(m *MT) reflect.Type {
	switch m.K {
	case KBasic:
		return basicReflect[m.Basic]
	case KNamed:
		if m.Sym.Path == "" {
			return reflect.TypeOf((*error)(nil)).Elem()
		}
		c := catByPath(m.Sym.Path)
		if c == nil || c.types[m.Sym.Name] == nil {
			harnessBug("no compiled type %v", m.Sym)
		}
		return c.types[m.Sym.Name]
	case KPtr:
		return reflect.PointerTo(reflectOf(m.Elem))
	case KSlice:
		return reflect.SliceOf(reflectOf(m.Elem))
	case KArray:
		return reflect.ArrayOf(int(m.Len), reflectOf(m.Elem))
	case KMap:
		return reflect.MapOf(reflectOf(m.Key), reflectOf(m.Elem))
	case KChan:
		return reflect.ChanOf(m.Dir, reflectOf(m.Elem))
	case KFunc:
		var in, out []reflect.Type
		for _, a := range m.Args {
			in = append(in, reflectOf(a.T))
		}
		for _, a := range m.Res {
			out = append(out, reflectOf(a.T))
		}
		return reflect.FuncOf(in, out, m.Var)
	}
	harnessBug("no reflect type for %v", m.K)
	return nil
}

var basicReflect = map[reflect.Kind]reflect.Type{}

func init() {
	for _, v := range []any{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0),
		float32(0), float64(0), complex64(0), complex128(0), ""} {
		basicReflect[reflect.TypeOf(v).Kind()] = reflect.TypeOf(v)
	}
}
