package harness

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	g "github.com/jhump/gopoet"
)

// render renders a file, returning the text or the error.
func render(f *g.GoFile) (string, error) {
	var b bytes.Buffer
	err := g.WriteGoFile(&b, f)
	return b.String(), err
}

// mustRender fails the case if rendering panics or reports an error.
func mustRender(t R, f *g.GoFile, what string) string {
	var s string
	var err error
	mustNot(t, "rendering "+what, func() { s, err = render(f) })
	if err != nil {
		if fe, ok := err.(*g.FormatError); ok {
			t.Fatalf("%s does not render: %v\n--- unformatted:\n%s", what, err, fe.Unformatted)
		}
		t.Fatalf("%s does not render: %v", what, err)
	}
	return s
}

// checked is a type-checked set of files forming one package.
type checked struct {
	fset  *token.FileSet
	files []*ast.File
	pkg   *types.Package
	info  *types.Info
	errs  []string
}

// typecheck parses and checks the sources as one package.
func typecheck(w *world, path string, srcs ...string) *checked {
	c := &checked{fset: token.NewFileSet(), info: &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}}
	for i, s := range srcs {
		f, err := parser.ParseFile(c.fset, fmt.Sprintf("f%d.go", i), s, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			c.errs = append(c.errs, "parse: "+err.Error())
			return c
		}
		c.files = append(c.files, f)
	}
	cfg := types.Config{Importer: w, Error: func(err error) { c.errs = append(c.errs, err.Error()) }}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.errs = append(c.errs, fmt.Sprintf("type checker panic: %v", r))
			}
		}()
		c.pkg, _ = cfg.Check(path, c.fset, c.files, c.info)
	}()
	return c
}

// declType finds the type expression of the named top-level var or type and
// returns its checked type.
func (c *checked) declType(name string) types.Type {
	for _, f := range c.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if n.Name == name && s.Type != nil {
							return c.info.TypeOf(s.Type)
						}
					}
				case *ast.TypeSpec:
					if s.Name.Name == name {
						return c.info.TypeOf(s.Type)
					}
				}
			}
		}
	}
	return nil
}

// namedField gives the checked type and tag of field i of struct type name.
func (c *checked) structOf(name string) *types.Struct {
	t := c.declType(name)
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func numbered(s string) string {
	var b strings.Builder
	for i, l := range strings.Split(s, "\n") {
		fmt.Fprintf(&b, "%4d| %s\n", i+1, l)
	}
	return b.String()
}
