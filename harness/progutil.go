package harness

import (
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
)

// clone copies a program.
func (p *Prog) clone() *Prog {
	b, err := json.Marshal(p)
	if err != nil {
		harnessBug("%v", err)
	}
	var q Prog
	if err := json.Unmarshal(b, &q); err != nil {
		harnessBug("%v", err)
	}
	return &q
}

// eachType visits every type element, named or not, of a file.
func (f *FileM) eachType(fn func(*TypeM)) {
	var typ func(t *TypeM)
	tref := func(t *TRef) {
		if t != nil && t.Anon != nil {
			typ(t.Anon)
		}
	}
	typ = func(t *TypeM) {
		fn(t)
		tref(t.Ref)
		for _, fl := range t.Fields {
			tref(fl.Type)
		}
	}
	for _, e := range f.Elems {
		for _, v := range e.Vals {
			tref(v.Type)
		}
		for _, t := range e.Types {
			typ(t)
		}
	}
}

// strip removes all comments.
func (p *Prog) strip() {
	for _, f := range p.AllFiles() {
		f.FileComment, f.PkgComment = "", ""
		for _, e := range f.Elems {
			e.Comment = ""
			for _, v := range e.Vals {
				v.Comment = ""
			}
			if e.Fn != nil {
				e.Fn.Comment = ""
			}
		}
		f.eachType(func(t *TypeM) {
			t.Comment = ""
			for _, fl := range t.Fields {
				fl.Comment = ""
			}
			for _, el := range t.Elems {
				el.Comment = ""
			}
		})
	}
}

// declared lists the names a generated package declares.
func (k *PkgM) declared() map[string]bool {
	r := map[string]bool{}
	for _, f := range k.Files {
		for _, e := range f.Elems {
			for _, v := range e.Vals {
				for _, n := range v.Names {
					r[n] = true
				}
			}
			for _, t := range e.Types {
				r[t.Name] = true
			}
			if e.Fn != nil && e.Fn.Recv == nil {
				r[e.Fn.Name] = true
			}
		}
	}
	delete(r, "_")
	return r
}

// eachCode visits every code block, nested ones included in their parents.
func (f *FileM) eachCode(fn func(*CodeM)) {
	for _, e := range f.Elems {
		for _, v := range e.Vals {
			if v.Init != nil {
				fn(v.Init)
			}
		}
		if e.Fn != nil {
			fn(e.Fn.Body)
		}
	}
}

func (c *CodeM) eachOp(fn func(*COp)) {
	for _, op := range c.Ops {
		if op.Kind == OpAddCode {
			op.Sub.eachOp(fn)
			continue
		}
		fn(op)
	}
}

// eachMention visits every package reference of a file with the package name
// the library is told with it ("" if none).
func (p *Prog) eachMention(f *FileM, fn func(path, name string)) {
	real := newBuilder(p).real
	mt := func(m *MT) {
		m.Walk(func(n *MT) {
			if n.K == KNamed && n.Sym.Path != "" {
				name := n.Sym.PkgName
				if n.SpecID > 0 {
					name = real[n.Sym.Path]
				}
				fn(n.Sym.Path, name)
			}
			for _, e := range n.Embeds {
				if e.Path != "" {
					fn(e.Path, e.PkgName)
				}
			}
		})
	}
	tref := func(t *TRef) {
		if t == nil || t.Anon != nil {
			return
		}
		mt(t.T)
	}
	for _, e := range f.Elems {
		for _, v := range e.Vals {
			tref(v.Type)
		}
		if e.Fn != nil {
			mt(e.Fn.Sig)
		}
	}
	f.eachType(func(t *TypeM) {
		switch t.Body {
		case BodyType:
			mt(t.T)
		case BodySpec:
			tref(t.Ref)
		case BodyStruct:
			for _, fl := range t.Fields {
				tref(fl.Type)
			}
		case BodyIface:
			for _, el := range t.Elems {
				if el.Embed != nil {
					if el.Embed.Path != "" {
						fn(el.Embed.Path, el.Embed.PkgName)
					}
				} else {
					mt(el.Sig)
				}
			}
		}
	})
	f.eachCode(func(c *CodeM) {
		c.eachOp(func(op *COp) {
			for _, pc := range op.Pieces {
				x := pc.Ref
				if x == nil || x.Form == FMethodSpec || x.Form == FIfaceMethod || x.Form == FFieldSpec {
					continue
				}
				switch {
				case x.T != nil && (x.Form == FReflect || x.Form == FGoType):
					x.T.Syms(func(s MSym) {
						if s.Path != "" {
							fn(s.Path, real[s.Path])
							if x.Form == FReflect {
								// whether it takes the name from the type is its business
								fn(s.Path, "")
							}
						}
					})
				case x.T != nil:
					mt(x.T)
				case x.Form == FGoPackage || x.Form == FReflect || x.Form == FGoType || x.Form == FGoObject ||
					x.Form == FConstSpec || x.Form == FVarSpec || x.Form == FTypeSpec || x.Form == FFuncSpec:
					fn(x.Sym.Path, real[x.Sym.Path])
					if x.Form == FReflect {
						fn(x.Sym.Path, "")
					}
				default:
					if x.Sym.Path != "" {
						fn(x.Sym.Path, x.Sym.PkgName)
					}
				}
			}
		})
	})
}

// parseSrc parses one file without resolving anything.
func parseSrc(src string) (*token.FileSet, *ast.File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	return fset, f, err
}

// gofmt formats harness-made source.
func gofmt(src string) string {
	b, err := format.Source([]byte(src))
	if err != nil {
		harnessBug("reference source is not valid: %v\n%s", err, numbered(src))
	}
	return string(b)
}
