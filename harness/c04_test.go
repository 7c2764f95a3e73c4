package harness

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"text/template"
	"time"
	"unsafe"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

type c04Named struct {
	rt         reflect.Type
	path, name string
	comparable bool
}

var c04Std = []c04Named{
	{reflect.TypeOf(time.Duration(0)), "time", "Duration", true},
	{reflect.TypeOf(time.Time{}), "time", "Time", true},
	{reflect.TypeOf(bytes.Buffer{}), "bytes", "Buffer", false},
	{reflect.TypeOf((*io.Reader)(nil)).Elem(), "io", "Reader", true},
	{reflect.TypeOf(os.FileMode(0)), "io/fs", "FileMode", true},
	{reflect.TypeOf(sync.Mutex{}), "sync", "Mutex", true},
	{reflect.TypeOf(reflect.Int), "reflect", "Kind", true},
	{reflect.TypeOf(template.FuncMap{}), "text/template", "FuncMap", false},
	{reflect.TypeOf((*error)(nil)).Elem(), "", "error", true},
	{reflect.TypeOf(unsafe.Pointer(nil)), "unsafe", "Pointer", true},
	{reflect.TypeOf(harnessNamed(0)), "verif/harness", "harnessNamed", true},
	{reflect.TypeOf(HarnessFunc(nil)), "verif/harness", "HarnessFunc", false},
}

// Named types of every kind.
type (
	hBool    bool
	hString  string
	hInt8    int8
	hInt16   int16
	hInt32   int32
	hInt64   int64
	hUint    uint
	hUint8   uint8
	hUint16  uint16
	hUint32  uint32
	hUint64  uint64
	hUintptr uintptr
	hFloat32 float32
	hFloat64 float64
	hCplx64  complex64
	hCplx128 complex128
	hPointer unsafe.Pointer
	hPtr     *int
	hSlice   []hUint8
	hArray   [3]hInt32
	hMap     map[hString]hPtr
	hChan    chan<- hBool
	hStruct  struct{ hInt8 }
	hIface   interface{ m(hChan) }
	hEmpty   interface{}
	hErr     error
	hMutex   sync.Mutex
	// Sprintf has the name of a function, Int8 nearly that of a basic type.
	Sprintf struct{}
	Int8    int8
	// Error is almost error.
	Error interface{ Error() string }
)

func init() {
	for _, v := range []any{hBool(false), hString(""), hInt8(0), hInt16(0), hInt32(0), hInt64(0), hUint(0), hUint8(0), hUint16(0), hUint32(0), hUint64(0), hUintptr(0), hFloat32(0), hFloat64(0),
		hCplx64(0), hCplx128(0), hPointer(nil), hPtr(nil), hSlice(nil), hArray{}, hMap(nil), hChan(nil), hStruct{}, (*hIface)(nil), (*hEmpty)(nil), (*hErr)(nil), &hMutex{}, Sprintf{}, Int8(0), (*Error)(nil)} {
		rt := reflect.TypeOf(v)
		if rt.Kind() == reflect.Ptr && rt.Name() == "" {
			rt = rt.Elem()
		}
		c04Std = append(c04Std, c04Named{rt, "verif/harness", rt.Name(), rt.Comparable()})
	}
}

type harnessNamed int

// HarnessFunc is a named type of an unnamed kind.
type HarnessFunc func(...int) error

// staticModels holds what the static types mean, by type-checking their source.
var staticModels = sync.OnceValue(func() []*MT {
	var src strings.Builder
	src.WriteString("package p\nimport \"unsafe\"\nvar _ unsafe.Pointer\n")
	var imp, use strings.Builder
	for i, c := range catalogue {
		fmt.Fprintf(&imp, "import k%d %q\n", i, c.Path)
		fmt.Fprintf(&use, "var _ k%d.T0\n", i)
	}
	for i, s := range staticTypes {
		fmt.Fprintf(&use, "var S%d %s\n", i, s.src)
	}
	text := "package p\nimport \"unsafe\"\n" + imp.String() + "var _ unsafe.Pointer\n" + use.String()
	var pk []*MPkg
	for i := range catalogue {
		pk = append(pk, &catalogue[i].MPkg)
	}
	c := typecheck(newWorld(pk), "static.example/p", text)
	if len(c.errs) > 0 {
		harnessBug("static types do not check: %v", c.errs)
	}
	var out []*MT
	flattenIfaces = true
	for i := range staticTypes {
		out = append(out, FromGo(c.pkg.Scope().Lookup(fmt.Sprintf("S%d", i)).Type(), true))
	}
	flattenIfaces = false
	return out
})

// rgen draws a reflect.Type together with its model.
type rgen struct {
	t        R
	fallback bool
	static   bool
}

func (r *rgen) leaf(cmp bool) (reflect.Type, *MT) {
	t := r.t
	switch rWeighted(t, 5, 5, 3, 3) {
	case 0:
		k := rPick(t, basicKinds)
		return basicReflect[k], &MT{K: KBasic, Basic: k}
	case 1:
		for {
			c := rPick(t, catalogue)
			n := rPick(t, []string{"T0", "T1", "I0", "I1", "Ünï", "S0", "U"})
			if cmp && (n == "S0" || n == "U") {
				n = "T1"
			}
			rt := c.types[n]
			if rt == nil {
				harnessBug("catalogue has no %s", n)
			}
			return rt, &MT{K: KNamed, Sym: MSym{Path: c.Path, Name: n}}
		}
	case 2:
		n := rPick(t, c04Std)
		for cmp && !n.comparable {
			n = c04Std[0]
		}
		return n.rt, &MT{K: KNamed, Sym: MSym{Path: n.path, Name: n.name}}
	default:
		i := rInt(t, 0, len(staticTypes)-1)
		if cmp && !staticTypes[i].rt.Comparable() {
			return basicReflect[reflect.Int], &MT{K: KBasic, Basic: reflect.Int}
		}
		r.static = true
		return staticTypes[i].rt, staticModels()[i]
	}
}

func (r *rgen) typ(d int, cmp bool) (reflect.Type, *MT) {
	t := r.t
	if d <= 0 {
		return r.leaf(cmp)
	}
	w := 3
	if cmp {
		w = 0
	}
	switch rWeighted(t, 3, 3, w, 3, w, 3, w, 3) {
	case 0:
		return r.leaf(cmp)
	case 1:
		e, m := r.typ(d-1, false)
		return reflect.PointerTo(e), &MT{K: KPtr, Elem: m}
	case 2:
		e, m := r.typ(d-1, false)
		return reflect.SliceOf(e), &MT{K: KSlice, Elem: m}
	case 3:
		e, m := r.typ(d-1, cmp)
		n := rPick(t, []int{0, 1, 2, 7, 16})
		if e.Size() > 1<<16 {
			n = 1
		}
		if e.Size() == 0 && rP(t, 6) { // only these can be as long as that
			n = rPick(t, []int{17, 255, 256, 1<<16 + 1, math.MaxInt32, math.MaxInt32 + 1, 1<<32 + 3, 1<<53 + 1, math.MaxInt64})
		} else if e.Size() < 100 && rP(t, 1) {
			n = rPick(t, []int{127, 128, 255, 256, 1000, 1 << 16, 1<<16 + 1})
		}
		return reflect.ArrayOf(n, e), &MT{K: KArray, Elem: m, Len: int64(n)}
	case 4:
		k, km := r.typ(d-1, true)
		e, m := r.typ(d-1, false)
		return reflect.MapOf(k, e), &MT{K: KMap, Key: km, Elem: m}
	case 5:
		e, m := r.typ(d-1, false)
		dir := rPick(t, []reflect.ChanDir{reflect.BothDir, reflect.RecvDir, reflect.SendDir})
		if e.Size() >= 1<<16 { // the runtime limits the size of elements
			e, m = basicReflect[reflect.Int], &MT{K: KBasic, Basic: reflect.Int}
		}
		return reflect.ChanOf(dir, e), &MT{K: KChan, Elem: m, Dir: dir}
	case 6:
		fm := &MT{K: KFunc}
		var in, out []reflect.Type
		for i := rSize(t, 14, 0, 1, 2, 3); i > 0; i-- {
			e, m := r.typ(d-1, false)
			in = append(in, e)
			fm.Args = append(fm.Args, MArg{"", m})
		}
		for i := rSize(t, 9, 0, 1, 2); i > 0; i-- {
			e, m := r.typ(d-1, false)
			out = append(out, e)
			fm.Res = append(fm.Res, MArg{"", m})
		}
		if n := len(in); n > 0 && rP(t, 6) {
			fm.Var = true
			if fm.Args[n-1].T.K != KSlice {
				in[n-1] = reflect.SliceOf(in[n-1])
				fm.Args[n-1].T = &MT{K: KSlice, Elem: fm.Args[n-1].T}
			}
		}
		return reflect.FuncOf(in, out, fm.Var), fm
	default:
		return r.strct(d, cmp)
	}
}

func (r *rgen) strct(d int, cmp bool) (reflect.Type, *MT) {
	t := r.t
	m := &MT{K: KStruct}
	var fs []reflect.StructField
	tg := &TGen{R: t, AnyTag: true}
	used := map[string]bool{}
	for i := rSize(t, 12, 0, 1, 2, 3, 4); i > 0; i-- {
		var f reflect.StructField
		var mf MField
		e, em := r.typ(d-1, cmp)
		if rP(t, 4) && em.K == KNamed && em.Sym.Path != "unsafe" && em.Sym.Name != "error" && em.Sym.Name != "harnessNamed" && !strings.HasPrefix(em.Sym.Name, "h") {
			f.Anonymous = true
			f.Name = em.Sym.Name
		} else {
			f.Name = rPick(t, fieldNames)
			mf.Name = f.Name
		}
		if used[f.Name] {
			continue
		}
		used[f.Name] = true
		f.Type, mf.T = e, em
		if rP(t, 5) {
			mf.Tag = tg.Tag()
			f.Tag = reflect.StructTag(mf.Tag)
		}
		if !f.Anonymous && rP(t, 2) {
			f.Name, mf.Name = "u"+f.Name, "u"+f.Name
			f.PkgPath = "verif/harness"
		}
		fs = append(fs, f)
		m.Fields = append(m.Fields, mf)
	}
	var rt reflect.Type
	ok := func() (ok bool) {
		defer func() { recover() }()
		rt = reflect.StructOf(fs)
		return true
	}()
	if !ok {
		// reflect cannot make methods for some embedded types
		r.fallback = true
		for i := range fs {
			if fs[i].Anonymous {
				fs[i].Anonymous = false
				m.Fields[i].Name = fs[i].Name
			}
		}
		rt = reflect.StructOf(fs)
	}
	return rt, m
}

func TestC04(t *testing.T) {
	if shard() == 0 {
		for i, s := range staticTypes {
			c04Check(func(f string, a ...any) { t.Fatalf(f, a...) }, s.rt, staticModels()[i])
			ev.Evals++
			ev.Extra["static-types"]++
		}
		for _, n := range c04Std {
			c04Check(func(f string, a ...any) { t.Fatalf(f, a...) }, n.rt, &MT{K: KNamed, Sym: MSym{Path: n.path, Name: n.name}})
		}
	}
	rapid.Check(t, func(t *rapid.T) {
		r := &rgen{t: t}
		rt, m := r.typ(rInt(t, 1, 4), false)
		if rapid.IntRange(0, 95).Draw(t, "deep") == 95 {
			for i := rInt(t, 5, 45); i > 0; i-- {
				switch rInt(t, 0, 5) {
				case 0:
					rt, m = reflect.PointerTo(rt), &MT{K: KPtr, Elem: m}
				case 1:
					rt, m = reflect.SliceOf(rt), &MT{K: KSlice, Elem: m}
				case 2:
					rt, m = reflect.MapOf(basicReflect[reflect.String], rt), &MT{K: KMap, Key: &MT{K: KBasic, Basic: reflect.String}, Elem: m}
				case 3:
					rt, m = reflect.FuncOf([]reflect.Type{rt}, nil, false), &MT{K: KFunc, Args: []MArg{{T: m}}}
				case 4:
					rt, m = reflect.FuncOf(nil, []reflect.Type{rt}, false), &MT{K: KFunc, Res: []MArg{{T: m}}}
				default:
					rt, m = reflect.StructOf([]reflect.StructField{{Name: "F", Type: rt}}), &MT{K: KStruct, Fields: []MField{{Name: "F", T: m}}}
				}
			}
		}
		evCase(m.Canon(false), m.Depth() >= 2, append(typeClasses(m), cond(r.fallback, "no-embedding-in-reflect"), cond(r.static, "with-compiled-unnamed-type"))...)
		mustNot(t, "TypeNameForReflectType of "+rt.String(), func() {
			c04Check(t.Fatalf, rt, m)
		})
	})
}

func c04Check(fatal func(string, ...any), rt reflect.Type, m *MT) {
	got := FromG(g.TypeNameForReflectType(rt))
	if got.Canon(false) != m.Canon(false) {
		fatal("reflect type %s\nconverted: %s\nexpected:  %s", rt, got.Canon(false), m.Canon(false))
	}
	got.Syms(func(s MSym) {
		real := s.PkgName
		if c := catByPath(s.Path); c != nil {
			real = c.Name
		} else if i := strings.LastIndex(s.Path, "/"); s.Path != "" {
			real = s.Path[i+1:] // the standard packages used here, and this one
		}
		if s.PkgName != "" && s.PkgName != real {
			fatal("reflect type %s converts to a reference to %s with package name %q", rt, s.Path, s.PkgName)
		}
	})
}
