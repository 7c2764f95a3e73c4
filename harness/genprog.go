package harness

import (
	"fmt"
	"go/token"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ProgOpts narrows or widens what genProg draws.
type ProgOpts struct {
	MaxPkgs, MaxFiles, MaxElems int
	Comments                    int  // k/16 chance of a comment on each element
	UnusedRegs                  bool // keep registrations of packages the file does not use
	Depth                       int
	NoTempl                     bool
}

// target is an element that later code can refer to.
type target struct {
	kind     int
	sym      MSym // with the real package name
	id       int  // of the spec, 0 if it has none
	single   bool
	pkg      int // index of the generated package, -1 for a foreign one
	num      bool
	isConst  bool
	iface    bool
	vmeths   []string
	fmeths   map[string]int // method name -> id of the *FuncSpec
	imeths   map[string]int // interface method name -> id
	exported bool
	fields   []string // names of the fields ("" when embedded), by index
}

type pgen struct {
	t       R
	o       ProgOpts
	p       *Prog
	infos   []pinfo
	targets []*target
	id      int
	cnt     map[string]int
	real    map[string]string
	f       *FileM
	pkg     int
}

type pinfo struct {
	NamedInfo
	pkg int
}

// bodyPNames are parameter names that no import alias can be.
var bodyPNames = []string{"pa", "pb", "ctx0", "px_1", "pärg", "_", "perr", "pR"}

// genProg draws a program.
func genProg(t R, o ProgOpts) *Prog { return genProgG(t, o).p }

// genProgG also returns the generator, to draw more in the same scope.
func genProgG(t R, o ProgOpts) *pgen {
	if o.MaxPkgs == 0 {
		o.MaxPkgs = 3
	}
	if o.MaxFiles == 0 {
		o.MaxFiles = 2
	}
	if o.MaxElems == 0 {
		o.MaxElems = 5
	}
	if o.Depth == 0 {
		o.Depth = 2
	}
	g := &pgen{t: t, o: o, p: &Prog{}, cnt: map[string]int{}, real: map[string]string{"unsafe": "unsafe"}}
	g.p.Ext = genPkgs(t, 1, 5, false)
	seen := map[string]bool{"unsafe": true}
	for _, e := range g.p.Ext {
		seen[e.Path] = true
		g.real[e.Path] = e.Name
		for _, n := range uniformNamed(e) {
			g.infos = append(g.infos, pinfo{n, -1})
			tg := &target{kind: EType, sym: n.Sym, pkg: -1, exported: true, iface: n.Iface, vmeths: n.ValMethods}
			if n.Sym.Name == "A0" {
				tg.vmeths = []string{"M0"}
			}
			g.targets = append(g.targets, tg)
		}
		for _, x := range []target{{kind: EConst, sym: MSym{Name: "C0"}, num: true, isConst: true}, {kind: EConst, sym: MSym{Name: "C1"}, num: true, isConst: true},
			{kind: EVar, sym: MSym{Name: "V0"}}, {kind: EVar, sym: MSym{Name: "V1"}}, {kind: EFunc, sym: MSym{Name: "F0"}}, {kind: EFunc, sym: MSym{Name: "F1"}}} {
			y := x
			y.sym.Path, y.sym.PkgName, y.pkg, y.exported = e.Path, e.Name, -1, true
			g.targets = append(g.targets, &y)
		}
	}
	for _, n := range predeclaredNamed {
		g.infos = append(g.infos, pinfo{n, -1})
	}
	g.infos = append(g.infos, pinfo{unsafePointerInfo, -1})
	npk := rInt(t, 1, o.MaxPkgs)
	for i := 0; i < npk; i++ {
		pk := &PkgM{Name: rPick(t, realNames)}
		for n := 0; ; n++ {
			pk.Path = rPick(t, pathDirs) + rPick(t, pathBases)
			if rP(t, 2) {
				pk.Path = relatedPath(t, rPick(t, sortedKeys(seen)))
			}
			if n > 0 {
				pk.Path = fmt.Sprintf("ex.com/g%d_%d/%s", i, n, pk.Name)
			}
			if !seen[pk.Path] {
				break
			}
		}
		seen[pk.Path] = true
		g.real[pk.Path] = pk.Name
		g.p.Pkgs = append(g.p.Pkgs, pk)
		g.pkg = i
		nf := rInt(t, 1, o.MaxFiles)
		for j := 0; j < nf; j++ {
			f := &FileM{Name: fmt.Sprintf("f%d.go", j), Pkg: i, Idx: j}
			pk.Files = append(pk.Files, f)
			g.file(f)
		}
	}
	n := len(g.p.AllFiles())
	g.p.Order = make([]int, n)
	for i := range g.p.Order {
		g.p.Order[i] = i
	}
	if n > 1 && rP(t, 8) {
		g.p.Order = rapid.Permutation(g.p.Order).Draw(t, "order")
	}
	return g
}

func (g *pgen) file(f *FileM) {
	g.f = f
	pk := g.p.Pkgs[g.pkg]
	if rP(g.t, g.o.Comments) {
		f.FileComment = genComment(g.t)
	}
	if rP(g.t, g.o.Comments) {
		f.PkgComment = genComment(g.t)
	}
	if rP(g.t, 3) {
		f.Canonical = rPick(g.t, []string{pk.Path, pk.Path, pk.Path + "/v2", "ex.com/canonical", "alpha", rPick(g.t, g.p.Ext).Path})
	}
	var regs []RegM
	if rP(g.t, 6) {
		for i := rSize(g.t, 9, 1, 2, 3); i > 0; i-- {
			e := rPick(g.t, g.p.Ext)
			n := e.Name
			if rP(g.t, 6) {
				n = ""
			}
			regs = append(regs, RegM{e.Path, n})
		}
		f.Regs = regs
	}
	ne := rInt(g.t, 1, rSize(g.t, 4*g.o.MaxElems, g.o.MaxElems))
	if rP(g.t, 1) && rP(g.t, 3) {
		ne = 0
	}
	for i := ne; i > 0; i-- {
		f.Elems = append(f.Elems, g.elem())
	}
	if !g.o.UnusedRegs && len(regs) > 0 {
		_, used := printRef(g.p, f, false)
		f.Regs = nil
		for _, r := range regs {
			if used[r.Path] {
				f.Regs = append(f.Regs, r)
			}
		}
	}
}

func (g *pgen) own() string { return g.p.Pkgs[g.pkg].Path }

// oddNames are names of elements; none of them is that of an import, a
// parameter, a method or a predeclared object.
var oddNames = []string{"K", "W", "Z", "Ö", "X_", "q", "w_", "_q", "öq", "Ünïq", "Errorq", "Typeq", "Funcq", "Packageq", "Mainq", "Xq_Y__Z", "A_1", "T_0", "V010", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "STRINGQ", "Int_", "M_", "typeq"}

func (g *pgen) name(prefix string) (string, bool) {
	key := g.own() + " " + prefix
	n := g.cnt[key]
	g.cnt[key]++
	if rP(g.t, 3) {
		s := rPick(g.t, oddNames)
		if k := g.own() + " name " + s; g.cnt[k] == 0 {
			g.cnt[k]++
			return s, token.IsExported(s)
		}
	}
	if rP(g.t, 3) {
		return fmt.Sprintf("%sU%d", strings.ToLower(prefix), n), false
	}
	if n == 2 && rP(g.t, 8) {
		return prefix + "Ünï", true
	}
	return fmt.Sprintf("%s%d", prefix, n), true
}

func (g *pgen) nid() int { g.id++; return g.id }

// named lists the named types in scope.
func (g *pgen) named() []NamedInfo {
	var r []NamedInfo
	for _, n := range g.infos {
		if n.pkg < 0 || n.pkg == g.pkg || n.Exported {
			r = append(r, n.NamedInfo)
		}
	}
	return r
}

func (g *pgen) blank() int { return 3 }

func (g *pgen) tg(d int) *TGen {
	return &TGen{R: g.t, Named: g.named(), Blank: g.blank(), PNames: bodyPNames, Depth: d, UseSpec: true}
}

// reflectNamed lists the foreign types that exist as compiled types.
func (g *pgen) reflectNamed() []NamedInfo {
	var r []NamedInfo
	for _, n := range g.infos {
		if c := catByPath(n.Sym.Path); c != nil && n.pkg < 0 && n.Sym.Name != "A0" && c.Name == g.real[n.Sym.Path] {
			r = append(r, n.NamedInfo)
		}
	}
	return append(r, predeclaredNamed...)
}

func (g *pgen) comment() string {
	if rP(g.t, g.o.Comments) {
		return genComment(g.t)
	}
	return ""
}

var commentPieces = []string{"a comment", "var x = 1", "*/", "/*", "//", "\"quo`te", "", " indented", "\ttab", "func init() { panic(0) }", "é世界", "%s %d", "}", ")", "TODO(x): y",
	"type T int", "{{.X}}", "import \"fmt\"", "- item", "# Heading", "trailing ", "[Link]", "package x", "  * deep", "cr\r\nlf", "a\rb",
	"go:noinline", "go:build x", "line x.go:1", "export F", "nolint:all", "extern x", "Deprecated: no", "Output:", "Code generated by gopoet. DO NOT EDIT.", "\\", "=====", "1. one", "\t\tcode block", "a  b   c", "@x", "#cgo LDFLAGS: x",
	"a line of a comment " + strings.Repeat("that goes on and on ", 20) + "to its end", strings.Repeat("x", 3000)}

// genComment draws comment text: anything a // comment can hold, line by line,
// including text that looks like code, but not directives.
func genComment(t R) string {
	if rP(t, 3) {
		s := rapid.StringOfN(rapid.RuneFrom([]rune("ab*/\"`\\{}()%\n\n\t é世'<>&|:;=")), 1, 20, -1).Draw(t, "c")
		return s
	}
	var ls []string
	for i := rSize(t, 40, 1, 1, 2, 3); i > 0; i-- {
		ls = append(ls, rPick(t, commentPieces))
	}
	s := strings.Join(ls, "\n")
	if s == "" {
		s = "c"
	}
	return s
}

func (g *pgen) elem() *ElemM {
	switch rWeighted(g.t, 3, 4, 2, 3) {
	case 0:
		return g.values(EVar)
	case 1:
		return g.typeElem()
	case 2:
		return g.values(EConst)
	default:
		return g.fn()
	}
}

func (g *pgen) values(kind int) *ElemM {
	e := &ElemM{Kind: kind}
	n := rSize(g.t, 14, 1, 1, 1, 2, 3)
	if n > 1 {
		e.Comment = g.comment()
	} else if rP(g.t, 6) {
		e.Direct = true
	} else if rP(g.t, 2) {
		e.Comment = g.comment()
	}
	var prevConst *ValM
	prevNum := true
	var added []*target
	for i := 0; i < n; i++ {
		v := &ValM{ID: g.nid(), Comment: g.comment()}
		nn := rSize(g.t, 9, 1, 1, 1, 2, 3)
		repeat := kind == EConst && prevConst != nil && rP(g.t, 8)
		if repeat {
			nn = len(prevConst.Names)
		}
		num := true
		var exps []bool
		for j := 0; j < nn; j++ {
			if rP(g.t, 1) {
				v.Names = append(v.Names, "_")
				exps = append(exps, false)
				continue
			}
			pre := "V"
			if kind == EConst {
				pre = "C"
			}
			name, exp := g.name(pre)
			v.Names = append(v.Names, name)
			exps = append(exps, exp)
		}
		if kind == EConst {
			if !repeat {
				num = g.constInit(v, nn)
				prevConst = v
			} else {
				num = prevNum
			}
			prevNum = num
		} else {
			g.varInit(v, nn)
		}
		e.Vals = append(e.Vals, v)
		for j, name := range v.Names {
			if name == "_" {
				continue
			}
			added = append(added, &target{kind: kind, sym: MSym{g.own(), g.p.Pkgs[g.pkg].Name, name}, id: v.ID, single: nn == 1, pkg: g.pkg,
				num: num && kind == EConst, isConst: kind == EConst, exported: exps[j]})
		}
	}
	g.targets = append(g.targets, added...)
	return e
}

// constInit gives a constant its value, and reports whether it is numeric.
func (g *pgen) constInit(v *ValM, n int) bool {
	num := !rP(g.t, 4)
	if num && rP(g.t, 6) {
		// a typed constant takes literals only
		var ok []*MT
		for _, k := range basicKinds {
			if k >= reflect.Int && k <= reflect.Complex128 {
				ok = append(ok, &MT{K: KBasic, Basic: k})
			}
		}
		for _, ni := range g.named() {
			if ni.Numeric {
				m := g.tg(1).namedMT(ni)
				ok = append(ok, m, m)
			}
		}
		m := rPick(g.t, ok)
		v.Type = &TRef{T: m, SpecID: m.SpecID}
	}
	var ps []Piece
	for i := 0; i < n; i++ {
		if i > 0 {
			ps = append(ps, Piece{Lit: ", "})
		}
		if !num {
			ps = append(ps, Piece{Lit: rPick(g.t, []string{`"a"`, `"100%s"`, "`{{.X}}`", `"%d" + "%"`, `"é\n"`, `"//"`})})
			continue
		}
		var refs []*target
		if v.Type == nil {
			refs = g.visible(func(t *target) bool { return t.isConst && t.num })
		}
		switch k := rInt(g.t, 0, 4); {
		case len(refs) > 0 && k < 3:
			ps = append(ps, g.ref(g.pick(refs))...)
			if k == 1 {
				ps = append(ps, Piece{Lit: " + 1"})
			}
		case k == 3:
			ps = append(ps, Piece{Lit: "iota"})
		default:
			ps = append(ps, Piece{Lit: rPick(g.t, []string{"1", "17 % 5", "(2)", "1 << 3"})})
		}
	}
	v.Init = g.split(ps, false)
	return num
}

func (g *pgen) varInit(v *ValM, n int) {
	switch rInt(g.t, 0, 3) {
	case 0: // only a type
		v.Type = g.tref()
	case 1: // type and zero value
		v.Type = g.tref()
		var ps []Piece
		for i := 0; i < n; i++ {
			if i > 0 {
				ps = append(ps, Piece{Lit: ", "})
			}
			ps = append(ps, Piece{Lit: "*new("}, g.typePiece(v.Type.model()), Piece{Lit: ")"})
		}
		v.Init = g.split(ps, false)
	default:
		var ps []Piece
		for i := 0; i < n; i++ {
			if i > 0 {
				ps = append(ps, Piece{Lit: ", "})
			}
			ps = append(ps, g.expr()...)
		}
		v.Init = g.split(ps, false)
	}
}

// expr draws an expression with references.
func (g *pgen) expr() []Piece {
	switch rWeighted(g.t, 5, 3, 3, 1, 1) {
	case 0:
		if ts := g.visible(func(t *target) bool { return t.kind != EType }); len(ts) > 0 {
			return g.ref(g.pick(ts))
		}
	case 1:
		ps := g.methodExpr()
		if x := g.fieldExpr(); x != nil && (ps == nil || rP(g.t, 3)) {
			ps = x
		}
		if ps != nil {
			return ps
		}
	case 2:
		return []Piece{{Lit: "new("}, g.anyTypePiece(g.o.Depth), {Lit: ")"}}
	case 3:
		return []Piece{{Lit: "func(zz "}, g.anyTypePiece(1), {Lit: ") {}"}}
	}
	return []Piece{{Lit: rPick(g.t, []string{"1", `"x%sy"`, "'%'", "`{{` + \"}}\"", "[]int{1, 2}", `struct{ X int }{X: 3}.X`})}}
}

func (g *pgen) visible(ok func(*target) bool) []*target {
	var r []*target
	for _, t := range g.targets {
		if (t.pkg < 0 || t.pkg == g.pkg || t.exported) && ok(t) {
			r = append(r, t)
		}
	}
	return r
}

// pick draws one of the targets, half of the time a generated one.
func (g *pgen) pick(ts []*target) *target {
	if rP(g.t, 8) {
		var gen []*target
		for _, t := range ts {
			if t.pkg >= 0 {
				gen = append(gen, t)
			}
		}
		if len(gen) > 0 {
			return rPick(g.t, gen)
		}
	}
	return rPick(g.t, ts)
}

func (g *pgen) methodExpr() []Piece {
	ts := g.visible(func(t *target) bool { return t.kind == EType && len(t.vmeths) > 0 })
	if len(ts) == 0 {
		return nil
	}
	t := g.pick(ts)
	m := rPick(g.t, t.vmeths)
	if id, ok := t.fmeths[m]; ok && rP(g.t, 5) {
		return append(g.ref(t), Piece{Lit: "."}, Piece{Ref: &RefM{Form: FMethodSpec, Method: m, ID: id}})
	}
	if id, ok := t.imeths[m]; ok && rP(g.t, 5) {
		return append(g.ref(t), Piece{Lit: "."}, Piece{Ref: &RefM{Form: FIfaceMethod, Method: m, ID: id}})
	}
	x := &RefM{Sym: t.sym, Kind: EType, Method: m, Real: g.real[t.sym.Path]}
	forms := []int{FMethodRef, FMethodRefPtr}
	if t.sym.Name != "A0" && (t.sym.Name != "I1" || m != "MI0" || t.pkg >= 0) {
		forms = append(forms, FGoObject)
	}
	x.Form = rPick(g.t, forms)
	g.maybeBlank(x)
	return []Piece{{Ref: x, Verb: g.verb()}}
}

// fieldExpr draws a selection of a field of a generated struct type.
func (g *pgen) fieldExpr() []Piece {
	ts := g.visible(func(t *target) bool {
		for _, f := range t.fields {
			if f != "" && f != "_" && (t.pkg == g.pkg || token.IsExported(f)) {
				return true
			}
		}
		return false
	})
	if len(ts) == 0 {
		return nil
	}
	t := g.pick(ts)
	for i := rInt(g.t, 0, len(t.fields)-1); ; i = (i + 1) % len(t.fields) {
		if f := t.fields[i]; f != "" && f != "_" && (t.pkg == g.pkg || token.IsExported(f)) {
			ps := append([]Piece{{Lit: "("}}, g.ref(t)...)
			return append(ps, Piece{Lit: "{})."}, Piece{Ref: &RefM{Form: FFieldSpec, Method: f, ID: t.id, Idx: i}, Verb: g.verb()})
		}
	}
}

func (g *pgen) verb() string { return rPick(g.t, []string{"", "%v", "%s"}) }

func (g *pgen) maybeBlank(x *RefM) {
	switch x.Form {
	case FPackage, FPackagePtr, FSymbol, FSymbolPtr, FMethodRef, FMethodRefPtr, FPrefix, FEmbed:
		if x.Sym.Path != g.own() && rP(g.t, g.blank()) {
			x.Sym.PkgName = ""
		}
	}
}

// ref draws a reference to a target, in some form.
func (g *pgen) ref(t *target) []Piece {
	x := &RefM{Sym: t.sym, Kind: t.kind, Real: g.real[t.sym.Path]}
	forms := []int{FSymbol, FSymbolPtr, FGoObject}
	foreign := t.sym.Path != g.own()
	if foreign {
		forms = append(forms, FPackage, FPackagePtr, FGoPackage, FPrefix)
	}
	if t.kind == EType {
		forms = append(forms, FTypeName, FGoType, FEmbed)
		if c := catByPath(t.sym.Path); c != nil && c.Name == t.sym.PkgName && t.sym.Name != "A0" && t.pkg < 0 {
			forms = append(forms, FReflect, FReflect)
		}
	}
	if t.id > 0 && t.single {
		f := map[int]int{EConst: FConstSpec, EVar: FVarSpec, EType: FTypeSpec, EFunc: FFuncSpec}[t.kind]
		forms = append(forms, f, f, f)
	}
	x.Form = rPick(g.t, forms)
	x.ID = t.id
	g.maybeBlank(x)
	switch x.Form {
	case FPackage, FPackagePtr, FGoPackage:
		return []Piece{{Ref: x, Verb: g.verb()}, {Lit: "." + t.sym.Name}}
	case FPrefix:
		return []Piece{{Ref: x, Verb: g.verb()}, {Lit: t.sym.Name}}
	case FTypeName:
		x.T = &MT{K: KNamed, Sym: g.tg(1).sym(t.sym)}
	}
	return []Piece{{Ref: x, Verb: g.verb()}}
}

// typePiece draws a reference to a type, given its model.
func (g *pgen) typePiece(m *MT) Piece {
	x := &RefM{Form: FTypeName, T: m}
	if rP(g.t, 5) {
		x.Form, x.T = FGoType, sortedMethods(m)
	}
	if reflectable(m) && g.allCompiled(m) && rP(g.t, 8) {
		x.Form, x.T = FReflect, m
	}
	if rP(g.t, 2) {
		x.Form, x.T = FAnonSpec, m
	}
	return Piece{Ref: x, Verb: g.verb()}
}

// anyTypePiece draws a type and a reference to it.
func (g *pgen) anyTypePiece(d int) Piece {
	if rn := g.reflectNamed(); len(rn) > 1 && rP(g.t, 4) {
		return g.typePiece((&TGen{R: g.t, Named: rn, Reflect: true, Depth: d}).Type())
	}
	return g.typePiece(g.tg(d).Type())
}

func (g *pgen) allCompiled(m *MT) bool {
	ok := true
	m.Syms(func(s MSym) {
		if s.Path == "" {
			return
		}
		c := catByPath(s.Path)
		if c == nil || c.Name != g.real[s.Path] || c.types[s.Name] == nil || s.Name == "A0" {
			ok = false
		}
	})
	return ok
}

// reflectable: made of what reflect.*Of can build, with small arrays.
func reflectable(m *MT) bool {
	ok := true
	m.Walk(func(n *MT) {
		switch n.K {
		case KStruct, KIface:
			ok = false
		case KArray:
			ok = ok && n.Len < 1000
		case KFunc:
			for _, a := range append(append([]MArg{}, n.Args...), n.Res...) {
				ok = ok && a.Name == ""
			}
		case KChan:
			// reflect refuses large elements
			ok = ok && n.Elem.K != KArray
		case KMap:
			ok = ok && n.Key.K != KArray
		}
	})
	return ok
}

func (r *TRef) model() *MT {
	if r.Anon != nil {
		return r.Anon.equiv()
	}
	return r.T
}

// equiv is the type a type element stands for, as an unnamed type.
func (t *TypeM) equiv() *MT {
	switch t.Body {
	case BodyType:
		return t.T
	case BodySpec:
		return t.Ref.model()
	case BodyStruct:
		m := &MT{K: KStruct}
		for _, f := range t.Fields {
			m.Fields = append(m.Fields, MField{f.Name, f.Type.model(), f.Tag})
		}
		return m
	default:
		m := &MT{K: KIface}
		for _, e := range t.Elems {
			if e.Embed != nil {
				m.Embeds = append(m.Embeds, *e.Embed)
			} else {
				m.Methods = append(m.Methods, MMethod{e.Name, e.Sig})
			}
		}
		return m
	}
}

// tref draws a type for a slot that takes a type name or a type element.
func (g *pgen) tref() *TRef {
	switch rWeighted(g.t, 8, 2, 2) {
	case 1:
		var c []NamedInfo
		for _, n := range g.named() {
			if n.SpecID > 0 {
				c = append(c, n)
			}
		}
		if len(c) > 0 {
			n := rPick(g.t, c)
			return &TRef{T: &MT{K: KNamed, Sym: n.Sym}, SpecID: n.SpecID}
		}
	case 2:
		return &TRef{Anon: g.anon()}
	}
	return &TRef{T: g.tg(g.o.Depth).Type()}
}

// anon draws an unnamed type element.
func (g *pgen) anon() *TypeM {
	t := &TypeM{}
	g.typeBody(t, rInt(g.t, 0, 2))
	return t
}

func (g *pgen) typeBody(t *TypeM, kind int) {
	switch kind {
	case 0:
		t.Body = BodyStruct
		used := map[string]bool{}
		for i := rSize(g.t, 15, 0, 1, 2, 3); i > 0; i-- {
			f := &FieldM{Comment: g.comment()}
			tg := g.tg(g.o.Depth)
			if rP(g.t, 5) {
				if m, name, ok := tg.embedded(false); ok && !used[name] {
					used[name] = true
					f.Type = &TRef{T: m, SpecID: m.SpecID}
				}
			}
			if f.Type == nil {
				f.Name = rPick(g.t, fieldNames)
				for n := 0; used[f.Name]; n++ {
					f.Name = fmt.Sprintf("G%d", n)
				}
				used[f.Name] = true
				if f.Type = g.tref(); f.Type.T != nil {
					likeType(g.t, &f.Name, f.Type.T, used, false)
				}
			}
			if rP(g.t, 5) {
				f.Tag = tg.Tag()
			}
			t.Fields = append(t.Fields, f)
		}
	case 1:
		t.Body = BodyIface
		m := g.tg(g.o.Depth).Iface(1)
		for i := range m.Embeds {
			t.Elems = append(t.Elems, &IElemM{Comment: g.comment(), Embed: &m.Embeds[i]})
		}
		for _, mm := range m.Methods {
			t.Elems = append(t.Elems, &IElemM{Comment: g.comment(), Name: mm.Name, Sig: mm.Sig, ID: g.nid()})
		}
		if len(t.Elems) > 1 && rP(g.t, 6) {
			t.Elems = rapid.Permutation(t.Elems).Draw(g.t, "elems")
		}
	default:
		if rP(g.t, 4) {
			t.Body = BodySpec
			t.Ref = g.tref()
		} else {
			t.Body = BodyType
			t.T = g.tg(g.o.Depth).Type()
		}
	}
}

func (g *pgen) typeElem() *ElemM {
	e := &ElemM{Kind: EType}
	n := rSize(g.t, 14, 1, 1, 1, 2, 3)
	if n > 1 {
		e.Comment = g.comment()
	} else if rP(g.t, 6) {
		e.Direct = true
	} else if rP(g.t, 2) {
		e.Comment = g.comment()
	}
	var infos []pinfo
	var tgs []*target
	for i := 0; i < n; i++ {
		t := &TypeM{ID: g.nid(), Comment: g.comment(), Alias: rP(g.t, 3)}
		var exp bool
		t.Name, exp = g.name("T")
		sym := MSym{g.own(), g.p.Pkgs[g.pkg].Name, t.Name}
		g.typeBody(t, rWeighted(g.t, 3, 3, 4))
		if t.Body == BodyStruct && !t.Alias && rP(g.t, 4) {
			t.Fields = append(t.Fields, &FieldM{Name: "Self", Type: &TRef{T: &MT{K: KPtr, Elem: &MT{K: KNamed, Sym: sym}}}})
		}
		t.Late = rP(g.t, 1)
		m := t.equiv()
		ni := NamedInfo{Sym: sym, Exported: exp, SpecID: t.ID, Alias: t.Alias, Comparable: g.comparable(m), Iface: g.isIface(m)}
		ni.ValMethods = g.ifaceMethods(m)
		u := g.under(m)
		ni.Embeddable = u != "ptr"
		ni.Numeric = u == "num"
		ni.Recv = !t.Alias && !ni.Iface && u != "ptr"
		tg := &target{kind: EType, sym: sym, id: t.ID, single: true, pkg: g.pkg, exported: exp, iface: ni.Iface, imeths: map[string]int{}, fmeths: map[string]int{}}
		if t.Body == BodyIface {
			for _, el := range t.Elems {
				if el.Embed == nil {
					tg.vmeths = append(tg.vmeths, el.Name)
					tg.imeths[el.Name] = el.ID
				}
			}
		}
		if t.Body == BodyStruct {
			for _, f := range t.Fields {
				tg.fields = append(tg.fields, f.Name)
			}
		}
		e.Types = append(e.Types, t)
		infos = append(infos, pinfo{ni, g.pkg})
		tgs = append(tgs, tg)
	}
	g.infos = append(g.infos, infos...)
	g.targets = append(g.targets, tgs...)
	return e
}

func (g *pgen) info(s MSym) *NamedInfo {
	for i := range g.infos {
		if n := &g.infos[i].NamedInfo; n.Sym.Path == s.Path && n.Sym.Name == s.Name {
			return n
		}
	}
	harnessBug("no info for %v", s)
	return nil
}

func (g *pgen) comparable(m *MT) bool {
	switch m.K {
	case KNamed:
		return g.info(m.Sym).Comparable
	case KSlice, KMap, KFunc:
		return false
	case KArray:
		return g.comparable(m.Elem)
	case KStruct:
		for _, f := range m.Fields {
			if !g.comparable(f.T) {
				return false
			}
		}
	}
	return true
}

func (g *pgen) isIface(m *MT) bool {
	return m.K == KIface || m.K == KNamed && g.info(m.Sym).Iface
}

// ifaceMethods: the names in an interface type's method set.
func (g *pgen) ifaceMethods(m *MT) []string {
	var r []string
	switch {
	case m.K == KNamed:
		if n := g.info(m.Sym); n.Iface {
			return n.ValMethods
		}
	case m.K == KIface:
		for _, e := range m.Embeds {
			r = append(r, g.info(e).ValMethods...)
		}
		for _, mm := range m.Methods {
			r = append(r, mm.Name)
		}
	}
	return r
}

// under classifies the underlying type: "ptr", "num" or "".
func (g *pgen) under(m *MT) string {
	switch m.K {
	case KPtr:
		return "ptr"
	case KBasic:
		if m.Basic >= reflect.Int && m.Basic <= reflect.Complex128 {
			return "num"
		}
	case KNamed:
		if m.Sym.Path == "unsafe" {
			return "ptr"
		}
		n := g.info(m.Sym)
		if n.Numeric {
			return "num"
		}
		if !n.Embeddable {
			return "ptr"
		}
	}
	return ""
}

func (g *pgen) fn() *ElemM {
	f := &FnM{ID: g.nid(), Comment: g.comment(), Route: rInt(g.t, 0, 3)}
	e := &ElemM{Kind: EFunc, Fn: f}
	var recv *target
	if rP(g.t, 8) {
		var c []*target
		for _, t := range g.targets {
			if t.pkg == g.pkg && t.kind == EType && g.info(t.sym).Recv {
				c = append(c, t)
			}
		}
		if len(c) > 0 {
			recv = rPick(g.t, c)
		}
	}
	f.Sig = g.tg(g.o.Depth).Sig(g.o.Depth - 1)
	// a receiver shares its scope with the parameters
	var exp bool
	if recv != nil {
		f.Recv = &RecvM{Name: rPick(g.t, []string{"rcv", "rcv", "", "_"}), Type: recv.sym.Name, Ptr: rP(g.t, 8), How: rInt(g.t, 0, 3), SpecID: recv.id}
		f.Name = fmt.Sprintf("Meth%d", f.ID)
		if rP(g.t, 4) {
			f.Name = fmt.Sprintf("meth%d", f.ID)
		}
	} else {
		f.Name, exp = g.name("F")
	}
	// parameters and results share one scope
	used := map[string]bool{}
	for _, l := range [][]MArg{f.Sig.Args, f.Sig.Res} {
		for i := range l {
			if n := l[i].Name; n != "" && n != "_" && used[n] {
				l[i].Name = n + "2"
			}
			used[l[i].Name] = true
		}
	}
	f.Body = g.body(len(f.Sig.Res) > 0)
	if f.Body.trivial() && rP(g.t, 8) {
		// nothing in the body can be shadowed, so names can be anything
		for _, l := range [][]MArg{f.Sig.Args, f.Sig.Res} {
			for i := range l {
				if n := l[i].Name; n != "" && n != "_" {
					likeType(g.t, &l[i].Name, l[i].T, used, true)
				}
			}
		}
		if recv != nil && !used[recv.sym.Name] && rP(g.t, 5) {
			f.Recv.Name = recv.sym.Name
		}
	}
	if recv != nil {
		if !f.Recv.Ptr {
			if exported(f.Name) {
				recv.vmeths = append(recv.vmeths, f.Name)
				recv.fmeths[f.Name] = f.ID
			}
		}
	} else {
		g.targets = append(g.targets, &target{kind: EFunc, sym: MSym{g.own(), g.p.Pkgs[g.pkg].Name, f.Name}, id: f.ID, single: true, pkg: g.pkg, exported: exp})
	}
	return e
}

// trivial reports whether the code does nothing or just panics.
func (c *CodeM) trivial() bool {
	s := ""
	for _, o := range c.Ops {
		for _, p := range o.Pieces {
			if p.Ref != nil {
				return false
			}
			s += p.Lit
		}
		if o.Kind != OpPrint && o.Kind != OpPrintln && o.Kind != OpPrintf && o.Kind != OpPrintlnf {
			return false
		}
	}
	s = strings.TrimSpace(s)
	return s == "" || s == "panic(0)"
}

func exported(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func (g *pgen) body(results bool) *CodeM {
	var ps []Piece
	for i := rSize(g.t, 25, 0, 1, 2, 3, 4); i > 0; i-- {
		ps = append(ps, g.stmt()...)
		ps = append(ps, Piece{Lit: "\n"})
	}
	if results {
		ps = append(ps, Piece{Lit: "panic(0)"})
	}
	return g.split(ps, true)
}

func (g *pgen) stmt() []Piece {
	lit := func(s string) Piece { return Piece{Lit: s} }
	switch rWeighted(g.t, 6, 3, 3, 2, 1, 1) {
	case 0:
		return append([]Piece{lit("_ = ")}, g.expr()...)
	case 1:
		ts := g.visible(func(t *target) bool { return t.kind == EType })
		return append([]Piece{lit("var _ ")}, g.ref(g.pick(ts))...)
	case 2:
		return []Piece{lit("var _ "), g.anyTypePiece(g.o.Depth)}
	case 3:
		r := append([]Piece{lit("if zx := ")}, g.exprNoLit()...)
		return append(r, lit("; false {\n\t_ = zx\n}"))
	case 4:
		return []Piece{lit(rPick(g.t, []string{`_ = "100% {{.X}} %s"`, "_ = `a\n%d\nb`", "_ = '%'", "_ = 7 % 2 // c %v"}))}
	default:
		return []Piece{lit("for range []int{} {\n\t// nothing %\n}")}
	}
}

func (g *pgen) exprNoLit() []Piece {
	ts := g.visible(func(t *target) bool { return t.kind == EVar || t.kind == EFunc })
	if len(ts) == 0 {
		return []Piece{{Lit: "1"}}
	}
	return g.ref(g.pick(ts))
}

// split distributes pieces over calls.
func (g *pgen) split(ps []Piece, body bool) *CodeM {
	c := &CodeM{}
	if len(ps) == 0 {
		return c
	}
	// cut literals
	var qs []Piece
	for _, p := range ps {
		if p.Ref == nil && len(p.Lit) > 3 && rP(g.t, 2) {
			k := rInt(g.t, 1, len(p.Lit)-1)
			if !strings.Contains(p.Lit, "{") && isASCII(p.Lit) {
				qs = append(qs, Piece{Lit: p.Lit[:k]}, Piece{Lit: p.Lit[k:]})
				continue
			}
		}
		qs = append(qs, p)
	}
	if rP(g.t, 5) {
		op := &COp{Kind: OpPrintf, Pieces: qs}
		if !g.o.NoTempl && rP(g.t, 4) {
			op.Kind, op.Shape = OpTemplate, rInt(g.t, 0, 3)
			if !templOK(op) {
				op.Kind = OpPrintf
			}
		}
		c.Ops = append(c.Ops, op)
		return c
	}
	for len(qs) > 0 {
		n := rPick(g.t, []int{1, 1, 2, 3, 5})
		if n > len(qs) {
			n = len(qs)
		}
		chunk := qs[:n]
		qs = qs[n:]
		op := &COp{Pieces: chunk}
		plain := true
		for _, p := range chunk {
			plain = plain && p.Ref == nil
		}
		switch {
		case !plain && !g.o.NoTempl && rP(g.t, 4):
			op.Kind, op.Shape = OpTemplate, rInt(g.t, 0, 3)
			if !templOK(op) {
				op.Kind = OpPrintf
			}
		case !plain:
			op.Kind = OpPrintf
		default:
			op.Kind = rPick(g.t, []int{OpPrint, OpPrint, OpPrintf, OpTemplate})
			if g.o.NoTempl && op.Kind == OpTemplate {
				op.Kind = OpPrint
			}
		}
		if len(qs) > 0 && qs[0].Ref == nil && qs[0].Lit == "\n" && (op.Kind == OpPrint || op.Kind == OpPrintf) && rP(g.t, 8) {
			qs = qs[1:]
			op.Kind++
			switch op.Kind {
			case OpPrint + 1:
				op.Kind = OpPrintln
			case OpPrintf + 1:
				op.Kind = OpPrintlnf
			}
		}
		c.Ops = append(c.Ops, op)
	}
	if len(c.Ops) > 1 && rP(g.t, 5) {
		i := rInt(g.t, 0, len(c.Ops)-1)
		j := rInt(g.t, i+1, len(c.Ops))
		sub := &CodeM{Ops: append([]*COp{}, c.Ops[i:j]...)}
		ops := append([]*COp{}, c.Ops[:i]...)
		ops = append(ops, &COp{Kind: OpAddCode, Sub: sub})
		c.Ops = append(ops, c.Ops[j:]...)
	}
	return c
}

// templOK: a method element in template data also imports its receiver's
// package, whether or not the template needs it; and what an unnamed type element in it
// refers to is not qualified.
func templOK(op *COp) bool {
	for _, p := range op.Pieces {
		if p.Ref != nil && (p.Ref.Form == FMethodSpec || p.Ref.Form == FIfaceMethod || p.Ref.Form == FFieldSpec || p.Ref.Form == FAnonSpec) {
			return false
		}
	}
	return true
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// sortedMethods orders interface methods like go/types does.
func sortedMethods(m *MT) *MT {
	m = m.MapSyms(func(s MSym) MSym { return s })
	m.Walk(func(n *MT) {
		sort.SliceStable(n.Methods, func(i, j int) bool { return n.Methods[i].Name < n.Methods[j].Name })
	})
	return m
}
