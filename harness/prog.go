package harness

import (
	"fmt"
	"strings"
)

// Prog is the model of a set of generated packages: plain data, so that the
// same program can be built any number of times, also in another process.
type Prog struct {
	Ext  []*MPkg
	Pkgs []*PkgM
	// Order in which files are rendered, as indices into AllFiles.
	Order []int
}

type PkgM struct {
	Path, Name string
	Files      []*FileM
}

type FileM struct {
	Name, FileComment, PkgComment, Canonical string
	Elems                                    []*ElemM
	Regs                                     []RegM
	// indices of the package this file belongs to and of the file in it
	Pkg, Idx int
}

// RegM is an explicit registration made on the file before it has elements.
type RegM struct{ Path, Name string }

const (
	EConst = iota
	EVar
	EType
	EFunc
)

type ElemM struct {
	Kind    int
	Comment string
	Vals    []*ValM
	Types   []*TypeM
	Fn      *FnM
	Direct  bool // through AddConst/AddVar/AddType
}

type ValM struct {
	ID      int
	Comment string
	Names   []string
	Type    *TRef
	Init    *CodeM
}

// TRef is a type in a slot that accepts a type name or a type element.
type TRef struct {
	T      *MT
	SpecID int    // pass the named *TypeSpec with this id
	Anon   *TypeM // pass an unnamed *TypeSpec
}

// How a type element is made.
const (
	BodyType   = iota // from a TypeName
	BodyStruct        // from fields
	BodyIface         // from methods and embeds
	BodySpec          // from another type element (in Ref)
)

type TypeM struct {
	ID            int
	Comment, Name string
	Alias         bool
	Body          int
	T             *MT // BodyType; for the others, the equivalent type
	Ref           *TRef
	Fields        []*FieldM
	Elems         []*IElemM
	Late          bool // fields and elements get their types after the type is made
}

type FieldM struct {
	Comment, Name, Tag string
	Type               *TRef
}

type IElemM struct {
	Comment string
	Embed   *MSym
	Name    string
	Sig     *MT
	ID      int
}

type FnM struct {
	ID            int
	Comment, Name string
	Recv          *RecvM
	Sig           *MT
	Body          *CodeM
	Route         int
}

type RecvM struct {
	Name, Type string
	Ptr        bool
	How        int
	SpecID     int
}

// CodeM is the content of a code block.
type CodeM struct{ Ops []*COp }

const (
	OpPrint = iota
	OpPrintln
	OpPrintf
	OpPrintlnf
	OpTemplate
	OpAddCode
)

type COp struct {
	Kind   int
	Pieces []Piece
	Sub    *CodeM
	Shape  int // shape of template data
}

// Piece is literal text or a reference.
type Piece struct {
	Lit  string
	Ref  *RefM
	Verb string
}

// Forms in which a reference is handed to the library.
const (
	FPackage = iota
	FPackagePtr
	FGoPackage
	FSymbol
	FSymbolPtr
	FMethodRef
	FMethodRefPtr
	FTypeName
	FConstSpec
	FVarSpec
	FTypeSpec
	FFuncSpec
	FMethodSpec  // bare method name
	FIfaceMethod // bare method name
	FReflect
	FGoType
	FGoObject
	FAnonSpec  // unnamed type element
	FFieldSpec // bare field name
	FPrefix    // raw text using the prefix RegisterImport returned
	FEmbed     // embedded interface element
	numForms
)

var formNames = [...]string{"Package", "*Package", "*types.Package", "Symbol", "*Symbol", "MethodReference", "*MethodReference", "TypeName", "*ConstSpec", "*VarSpec",
	"*TypeSpec", "*FuncSpec", "*FuncSpec(method)", "*InterfaceMethod", "reflect.Type", "types.Type", "types.Object", "unnamed *TypeSpec", "*FieldSpec", "prefix", "*InterfaceEmbed"}

// RefM is one reference: the element it names and the form it is given in.
type RefM struct {
	Form   int
	Sym    MSym // PkgName "" = not known to the form
	Kind   int  // EConst.. of the element
	Method string
	T      *MT
	ID     int
	Idx    int
	Real   string // real package name
}

// AllFiles lists the files in building order.
func (p *Prog) AllFiles() []*FileM {
	var r []*FileM
	for _, k := range p.Pkgs {
		r = append(r, k.Files...)
	}
	return r
}

func (p *Prog) pkgOf(f *FileM) *PkgM { return p.Pkgs[f.Pkg] }

// ------------------------------------------------------- reference printer

// refFile prints a file independently of the library. Comments are printed
// only when asked for. It returns the source and the set of packages used.
type refFile struct {
	b        strings.Builder
	comments bool
	own      string
	alias    map[string]string // path -> local name
	order    []string
	used     map[string]bool
	real     map[string]string
}

func (r *refFile) q(path string) string {
	if path == r.own {
		return ""
	}
	r.used[path] = true
	if a, ok := r.alias[path]; ok {
		return a + "."
	}
	a := fmt.Sprintf("zq%d", len(r.order))
	r.alias[path] = a
	r.order = append(r.order, path)
	return a + "."
}

func (r *refFile) comment(s string) {
	if s == "" || !r.comments {
		return
	}
	for _, l := range strings.Split(s, "\n") {
		r.b.WriteString("// " + l + "\n")
	}
}

// printRef prints the source of a file. With an empty comment everywhere else
// the same, strip drops all comments.
func printRef(p *Prog, f *FileM, comments bool) (src string, used map[string]bool) {
	pk := p.pkgOf(f)
	body := &refFile{comments: comments, own: pk.Path, alias: map[string]string{}, used: map[string]bool{}}
	for _, e := range f.Elems {
		body.b.WriteString("\n")
		body.elem(e)
	}
	head := &refFile{comments: comments}
	if f.FileComment != "" {
		head.comment(f.FileComment)
		head.b.WriteString("\n")
	}
	head.comment(f.PkgComment)
	head.b.WriteString("package " + pk.Name)
	if f.Canonical != "" {
		fmt.Fprintf(&head.b, " // import %q", f.Canonical)
	}
	head.b.WriteString("\n\n")
	for _, path := range body.order {
		fmt.Fprintf(&head.b, "import %s %q\n", body.alias[path], path)
	}
	return head.b.String() + body.b.String(), body.used
}

func (r *refFile) elem(e *ElemM) {
	switch e.Kind {
	case EConst, EVar:
		kw := "const"
		if e.Kind == EVar {
			kw = "var"
		}
		if len(e.Vals) == 1 && e.Comment == "" {
			r.comment(e.Vals[0].Comment)
			r.b.WriteString(kw + " ")
			r.val(e.Vals[0])
			return
		}
		r.comment(e.Comment)
		r.b.WriteString(kw + " (\n")
		for _, v := range e.Vals {
			r.comment(v.Comment)
			r.val(v)
		}
		r.b.WriteString(")\n")
	case EType:
		if len(e.Types) == 1 && e.Comment == "" {
			r.comment(e.Types[0].Comment)
			r.b.WriteString("type ")
			r.typeSpec(e.Types[0])
			return
		}
		r.comment(e.Comment)
		r.b.WriteString("type (\n")
		for _, t := range e.Types {
			r.comment(t.Comment)
			r.typeSpec(t)
		}
		r.b.WriteString(")\n")
	case EFunc:
		f := e.Fn
		r.comment(f.Comment)
		r.b.WriteString("func ")
		if f.Recv != nil {
			r.b.WriteString("(")
			if f.Recv.Name != "" {
				r.b.WriteString(f.Recv.Name + " ")
			}
			if f.Recv.Ptr {
				r.b.WriteString("*")
			}
			r.b.WriteString(f.Recv.Type + ") ")
		}
		r.b.WriteString(f.Name)
		f.Sig.srcSig(&r.b, r.q)
		r.b.WriteString(" {\n")
		r.code(f.Body)
		r.b.WriteString("\n}\n")
	}
}

func (r *refFile) val(v *ValM) {
	r.b.WriteString(strings.Join(v.Names, ", "))
	if v.Type != nil {
		r.b.WriteString(" ")
		r.tref(v.Type)
	}
	if v.Init != nil {
		r.b.WriteString(" = ")
		r.code(v.Init)
	}
	r.b.WriteString("\n")
}

func (r *refFile) tref(t *TRef) {
	if t.Anon != nil {
		r.body(t.Anon)
		return
	}
	r.b.WriteString(t.T.Src(r.q))
}

func (r *refFile) typeSpec(t *TypeM) {
	r.b.WriteString(t.Name + " ")
	if t.Alias {
		r.b.WriteString("= ")
	}
	r.body(t)
	r.b.WriteString("\n")
}

func (r *refFile) body(t *TypeM) {
	switch t.Body {
	case BodyType:
		r.b.WriteString(t.T.Src(r.q))
	case BodySpec:
		r.tref(t.Ref)
	case BodyStruct:
		r.b.WriteString("struct {\n")
		for _, f := range t.Fields {
			r.comment(f.Comment)
			if f.Name != "" {
				r.b.WriteString(f.Name + " ")
			}
			r.tref(f.Type)
			if f.Tag != "" {
				r.b.WriteString(" " + tagLit(f.Tag))
			}
			r.b.WriteString("\n")
		}
		r.b.WriteString("}")
	case BodyIface:
		r.b.WriteString("interface {\n")
		for _, e := range t.Elems {
			r.comment(e.Comment)
			if e.Embed != nil {
				r.b.WriteString(e.Embed.Src(r.q))
			} else {
				r.b.WriteString(e.Name)
				e.Sig.srcSig(&r.b, r.q)
			}
			r.b.WriteString("\n")
		}
		r.b.WriteString("}")
	}
}

func (r *refFile) code(c *CodeM) {
	if c == nil {
		return
	}
	for _, op := range c.Ops {
		if op.Kind == OpAddCode {
			r.code(op.Sub)
			continue
		}
		for _, p := range op.Pieces {
			if p.Ref == nil {
				r.b.WriteString(p.Lit)
			} else {
				r.b.WriteString(p.Ref.text(r.q))
			}
		}
		if op.Kind == OpPrintln || op.Kind == OpPrintlnf {
			r.b.WriteString("\n")
		}
	}
}

// text is what a reference reads like with the given qualifiers.
func (x *RefM) text(q qualifier) string {
	switch x.Form {
	case FPackage, FPackagePtr, FGoPackage:
		return strings.TrimSuffix(q(x.Sym.Path), ".")
	case FPrefix:
		return q(x.Sym.Path)
	case FMethodSpec, FIfaceMethod, FFieldSpec:
		return x.Method
	}
	if x.T != nil {
		return x.T.Src(q)
	}
	s := x.Sym.Src(q)
	if x.Method != "" {
		s += "." + x.Method
	}
	return s
}
