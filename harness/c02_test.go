package harness

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

var kindOf = map[Kind]g.TypeKind{KBasic: g.KindBasic, KNamed: g.KindNamed, KPtr: g.KindPtr, KSlice: g.KindSlice, KArray: g.KindArray,
	KMap: g.KindMap, KChan: g.KindChan, KFunc: g.KindFunc, KStruct: g.KindStruct, KIface: g.KindInterface}

// accessors compares everything a type reports, at every level, with its
// model. It returns a description of the first difference.
func accessors(t g.TypeName, m *MT, at string) string {
	bad := func(what string, got, want any) string {
		return fmt.Sprintf("at %s (%s): %s is %v, want %v", at, m.CanonQ(), what, got, want)
	}
	if t == nil {
		return bad("type", nil, "non-nil")
	}
	if t.Kind() != kindOf[m.K] {
		return bad("Kind", t.Kind(), kindOf[m.K])
	}
	sym := g.Symbol{}
	if m.K == KNamed {
		sym = m.Sym.G()
	}
	if t.Symbol() != sym {
		return bad("Symbol", fmt.Sprintf("%#v", t.Symbol()), fmt.Sprintf("%#v", sym))
	}
	if m.Elem == nil {
		if t.Elem() != nil {
			return bad("Elem", t.Elem(), nil)
		}
	} else if s := accessors(t.Elem(), m.Elem, at+".elem"); s != "" {
		return s
	}
	if m.Key == nil {
		if t.Key() != nil {
			return bad("Key", t.Key(), nil)
		}
	} else if s := accessors(t.Key(), m.Key, at+".key"); s != "" {
		return s
	}
	ln := int64(-1)
	if m.K == KArray {
		ln = m.Len
	}
	if t.Len() != ln {
		return bad("Len", t.Len(), ln)
	}
	dir := reflect.ChanDir(0)
	if m.K == KChan {
		dir = m.Dir
	}
	if t.Dir() != dir {
		return bad("Dir", int(t.Dir()), int(dir))
	}
	bk := reflect.Invalid
	if m.K == KBasic {
		bk = m.Basic
	}
	if t.BasicKind() != bk {
		return bad("BasicKind", t.BasicKind(), bk)
	}
	if m.K != KFunc {
		if t.Signature() != nil {
			return bad("Signature", t.Signature(), nil)
		}
	} else if s := sigAccessors(t.Signature(), m, at+".sig"); s != "" {
		return s
	}
	fs := t.Fields()
	if m.K != KStruct {
		if fs != nil {
			return bad("Fields", fs, nil)
		}
	} else {
		if len(fs) != len(m.Fields) {
			return bad("number of fields", len(fs), len(m.Fields))
		}
		for i, f := range m.Fields {
			if fs[i].Name != f.Name || string(fs[i].Tag) != f.Tag {
				return bad(fmt.Sprintf("field %d", i), fmt.Sprintf("%q tag %q", fs[i].Name, fs[i].Tag), fmt.Sprintf("%q tag %q", f.Name, f.Tag))
			}
			if s := accessors(fs[i].Type, f.T, fmt.Sprintf("%s.field%d", at, i)); s != "" {
				return s
			}
		}
	}
	ms, es := t.Methods(), t.Embeds()
	if m.K != KIface {
		if ms != nil {
			return bad("Methods", ms, nil)
		}
		if es != nil {
			return bad("Embeds", es, nil)
		}
		return ""
	}
	if len(ms) != len(m.Methods) || len(es) != len(m.Embeds) {
		return bad("number of methods, embeds", []int{len(ms), len(es)}, []int{len(m.Methods), len(m.Embeds)})
	}
	for i, e := range m.Embeds {
		if es[i] != e.G() {
			return bad(fmt.Sprintf("embed %d", i), fmt.Sprintf("%#v", es[i]), fmt.Sprintf("%#v", e.G()))
		}
	}
	for i, mm := range m.Methods {
		if ms[i].Name != mm.Name {
			return bad(fmt.Sprintf("method %d", i), ms[i].Name, mm.Name)
		}
		if s := sigAccessors(&ms[i].Signature, mm.Sig, fmt.Sprintf("%s.method%d", at, i)); s != "" {
			return s
		}
	}
	return ""
}

func sigAccessors(s *g.Signature, m *MT, at string) string {
	if s == nil {
		return "at " + at + ": no signature"
	}
	if s.IsVariadic != m.Var || len(s.Args) != len(m.Args) || len(s.Results) != len(m.Res) {
		return fmt.Sprintf("at %s: %d args, %d results, variadic %v, want %d, %d, %v", at, len(s.Args), len(s.Results), s.IsVariadic, len(m.Args), len(m.Res), m.Var)
	}
	cmp := func(as []g.ArgType, ms []MArg, what string) string {
		for i := range ms {
			if as[i].Name != ms[i].Name {
				return fmt.Sprintf("at %s: %s %d is named %q, want %q", at, what, i, as[i].Name, ms[i].Name)
			}
			if s := accessors(as[i].Type, ms[i].T, fmt.Sprintf("%s.%s%d", at, what, i)); s != "" {
				return s
			}
		}
		return ""
	}
	if r := cmp(s.Args, m.Args, "arg"); r != "" {
		return r
	}
	return cmp(s.Results, m.Res, "result")
}

// scribble overwrites and extends every list obtained from the type.
func scribble(t g.TypeName) {
	if t == nil {
		return
	}
	junk := g.MapType(g.IntType, g.IntType)
	scribble(t.Elem())
	scribble(t.Key())
	if s := t.Signature(); s != nil {
		for _, a := range s.Args {
			scribble(a.Type)
		}
		for _, a := range s.Results {
			scribble(a.Type)
		}
	}
	fs := t.Fields()
	for i := range fs {
		scribble(fs[i].Type)
		fs[i] = g.FieldType{Name: "Junk", Type: junk, Tag: "junk"}
	}
	_ = append(fs[:0], g.FieldType{Name: "Junk2", Type: junk})
	ms := t.Methods()
	for i := range ms {
		ms[i] = g.MethodType{Name: "Junk"}
	}
	_ = append(ms[:0], g.MethodType{Name: "Junk2"})
	es := t.Embeds()
	for i := range es {
		es[i] = g.Symbol{Name: "Junk"}
	}
	_ = append(es[:0], g.Symbol{Name: "Junk2"})
}

func TestC02(t *testing.T) {
	if shard() == 0 {
		for k, v := range basicVars {
			if s := accessors(v, &MT{K: KBasic, Basic: k}, k.String()); s != "" {
				t.Fatal(s)
			}
		}
		for n, c := range map[string]struct {
			t g.TypeName
			m *MT
		}{
			"RuneType": {g.RuneType, &MT{K: KBasic, Basic: reflect.Int32}}, "ByteType": {g.ByteType, &MT{K: KBasic, Basic: reflect.Uint8}},
			"ErrorType":         {g.ErrorType, &MT{K: KNamed, Sym: MSym{Name: "error"}}},
			"UnsafePointerType": {g.UnsafePointerType, &MT{K: KNamed, Sym: MSym{"unsafe", "unsafe", "Pointer"}}},
		} {
			if s := accessors(c.t, c.m, n); s != "" {
				t.Fatal(s)
			}
		}
	}
	rapid.Check(t, func(t *rapid.T) {
		if rP(t, 6) {
			c02Reject(t)
		} else {
			c02Accessors(t)
		}
	})
}

func c02Gen(t R) *TGen {
	return &TGen{R: t, Named: append(append(allNamed(genPkgs(t, 1, 3, false)), predeclaredNamed...), append(ownNamed(""), unsafePointerInfo)...),
		AnyTag: true, BigLen: true, Unexp: true, Blank: 4}
}

func c02Accessors(t R) {
	m := c02Gen(t).Type()
	evCase("accessors: "+m.CanonQ(), m.Depth() >= 2, append(typeClasses(m), "route:accessors")...)
	mustNot(t, "accessors of "+m.CanonQ(), func() {
		ty := m.G()
		if s := accessors(ty, m, "top"); s != "" {
			t.Fatal(s)
		}
		scribble(ty)
		if s := accessors(ty, m, "top"); s != "" {
			t.Fatalf("after changing lists obtained from the type: %s", s)
		}
	})
}

// c02Reject calls one constructor with possibly invalid arguments and predicts
// whether it must refuse.
func c02Reject(t R) {
	gen := c02Gen(t)
	gen.Depth = 2
	var m *MT
	arg := func() (*MT, g.TypeName) { // nil now and then
		if rP(t, 4) {
			return nil, nil
		}
		x := gen.Small()
		return x, x.G()
	}
	var call func() g.TypeName
	var want string // "" = accepted
	refuse := func(cond bool, why string) {
		if cond && want == "" {
			want = why
		}
	}
	var desc string
	switch rInt(t, 0, 7) {
	case 0:
		e, te := arg()
		m = &MT{K: KPtr, Elem: e}
		refuse(e == nil, "nil element")
		call = func() g.TypeName { return g.PointerType(te) }
		desc = "PointerType"
	case 1:
		e, te := arg()
		m = &MT{K: KSlice, Elem: e}
		refuse(e == nil, "nil element")
		call = func() g.TypeName { return g.SliceType(te) }
		desc = "SliceType"
	case 2:
		e, te := arg()
		n := rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64(), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, -1, 0})).Draw(t, "len")
		m = &MT{K: KArray, Elem: e, Len: n}
		refuse(e == nil, "nil element")
		refuse(n < 0, "negative length")
		call = func() g.TypeName { return g.ArrayType(te, n) }
		desc = fmt.Sprintf("ArrayType(len %d)", n)
	case 3:
		k, tk := arg()
		e, te := arg()
		m = &MT{K: KMap, Key: k, Elem: e}
		refuse(e == nil, "nil element")
		refuse(k == nil, "nil key")
		call = func() g.TypeName { return g.MapType(tk, te) }
		desc = "MapType"
	case 4:
		e, te := arg()
		d := reflect.ChanDir(rInt(t, -2, 8))
		md := d
		if d == 0 {
			md = reflect.BothDir
		}
		m = &MT{K: KChan, Elem: e, Dir: md}
		refuse(e == nil, "nil element")
		refuse(d < 0 || d > 3, "bad direction")
		call = func() g.TypeName { return g.ChannelType(te, d) }
		desc = fmt.Sprintf("ChannelType(dir %d)", d)
	case 5, 6:
		m = gen.Sig(1)
		m.Var = rP(t, 7)
		if len(m.Args) > 0 && m.Var && rP(t, 5) {
			last := &m.Args[len(m.Args)-1]
			last.T = &MT{K: KSlice, Elem: last.T}
		}
		sig := m.GSig()
		if rP(t, 3) && len(sig.Args) > 0 {
			sig.Args[rInt(t, 0, len(sig.Args)-1)].Type = nil
			refuse(true, "nil argument type")
		}
		if rP(t, 3) && len(sig.Results) > 0 {
			sig.Results[rInt(t, 0, len(sig.Results)-1)].Type = nil
			refuse(true, "nil result type")
		}
		refuse(m.Var && (len(m.Args) == 0 || m.Args[len(m.Args)-1].T.K != KSlice), "variadic without a final slice")
		switch rInt(t, 0, 1) {
		case 0:
			call = func() g.TypeName { return g.FuncTypeFromSig(sig) }
			desc = "FuncTypeFromSig " + m.CanonQ()
		default:
			call = func() g.TypeName {
				if m.Var {
					return g.FuncTypeVariadic(sig.Args, sig.Results)
				}
				return g.FuncType(sig.Args, sig.Results)
			}
			desc = "FuncType(Variadic) " + m.CanonQ()
		}
	default:
		k := reflect.Kind(rInt(t, 0, 40))
		_, ok := goBasic[k]
		m = &MT{K: KBasic, Basic: k}
		if k == reflect.UnsafePointer {
			m = &MT{K: KNamed, Sym: MSym{"unsafe", "unsafe", "Pointer"}}
		} else {
			refuse(!ok, "not a basic kind")
		}
		call = func() g.TypeName { return g.BasicType(k) }
		desc = fmt.Sprintf("BasicType(%d)", k)
	}
	evCase("construct: "+desc+" "+want, true, "route:construct", cond(want != "", "refused: "+want), cond(want == "", "accepted"))
	var ty g.TypeName
	p, v, st := caught(func() { ty = call() })
	if p && want == "" {
		t.Fatalf("%s of %s was refused: %v\n%s", desc, m.CanonQ(), v, trimStack(st))
	}
	if !p && want != "" {
		t.Fatalf("%s with %s was accepted: %v", desc, want, m.CanonQ())
	}
	if !p {
		if s := accessors(ty, m, "top"); s != "" {
			t.Fatal(s)
		}
	}
}
