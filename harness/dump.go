package harness

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// dumper prints a file's syntax tree with every identifier replaced by what it
// resolves to, so that two files that say the same thing through different
// imports print the same. Comments, positions and imports are left out.
type dumper struct {
	b    strings.Builder
	info *types.Info
	pkg  *types.Package
	// blind leaves identifiers as written and drops package qualifiers: names
	// in front of a dot other than those the package itself declares
	blind    bool
	declared map[string]bool
	raw      bool // keep the qualifiers
}

// dumpFile prints one file, one entry per declaration.
func dumpFile(c *checked, f *ast.File) []string {
	return (&dumper{info: c.info, pkg: c.pkg}).file(f)
}

// dumpBlind prints one file without looking at what names resolve to.
func dumpBlind(f *ast.File, declared map[string]bool) []string {
	return (&dumper{blind: true, declared: declared}).file(f)
}

func (d *dumper) file(f *ast.File) []string {
	var out []string
	out = append(out, "package "+f.Name.Name)
	for _, dl := range f.Decls {
		if g, ok := dl.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		d.b.Reset()
		d.node(dl, 0)
		out = append(out, d.b.String())
	}
	return out
}

func (d *dumper) line(ind int, format string, a ...any) {
	d.b.WriteString(strings.Repeat(" ", ind))
	fmt.Fprintf(&d.b, format, a...)
	d.b.WriteString("\n")
}

var (
	posType     = reflect.TypeOf(token.Pos(0))
	commentType = reflect.TypeOf((*ast.CommentGroup)(nil))
	objType     = reflect.TypeOf((*ast.Object)(nil))
	scopeType   = reflect.TypeOf((*ast.Scope)(nil))
)

func (d *dumper) node(n any, ind int) {
	switch n := n.(type) {
	case nil:
		return
	case *ast.ParenExpr:
		d.node(n.X, ind)
		return
	case *ast.Ident:
		if n != nil {
			d.line(ind, "id %s", d.ident(n))
		}
		return
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if d.blind {
				if !d.raw && !d.declared[id.Name] {
					d.line(ind, "id %s", n.Sel.Name)
					return
				}
			} else if pn, isPkg := d.info.Uses[id].(*types.PkgName); isPkg {
				d.line(ind, "id «%s».%s", pn.Imported().Path(), n.Sel.Name)
				return
			}
		}
		d.line(ind, "sel %s of", n.Sel.Name)
		d.node(n.X, ind+1)
		return
	case *ast.BasicLit:
		if n == nil {
			return
		}
		if n.Kind == token.STRING {
			if s, err := strconv.Unquote(n.Value); err == nil {
				d.line(ind, "str %q", s)
				return
			}
		}
		d.line(ind, "lit %s", n.Value)
		return
	case *ast.FieldList:
		if n == nil || len(n.List) == 0 {
			d.line(ind, "fields none")
			return
		}
		d.line(ind, "fields")
		for _, f := range n.List {
			if len(f.Names) == 0 {
				d.line(ind+1, "field (no name)")
				d.fieldRest(f, ind+2)
			}
			for _, nm := range f.Names {
				d.line(ind+1, "field %s", nm.Name)
				d.fieldRest(f, ind+2)
			}
		}
		return
	case *ast.GenDecl:
		d.line(ind, "%s", n.Tok)
		for _, s := range n.Specs {
			d.node(s, ind+1)
		}
		return
	case *ast.EmptyStmt:
		return
	case *ast.TypeSpec:
		alias := ""
		if n.Assign.IsValid() {
			alias = " ="
		}
		d.line(ind, "typespec %s%s", n.Name.Name, alias)
		d.node(n.Type, ind+1)
		return
	case *ast.ValueSpec:
		var ns []string
		for _, x := range n.Names {
			ns = append(ns, x.Name)
		}
		d.line(ind, "valuespec %s", strings.Join(ns, ", "))
		if n.Type != nil {
			d.line(ind+1, "type")
			d.node(n.Type, ind+2)
		}
		for _, v := range n.Values {
			d.line(ind+1, "value")
			d.node(v, ind+2)
		}
		return
	case *ast.ChanType:
		d.line(ind, "chan %d", n.Dir)
		d.node(n.Value, ind+1)
		return
	}
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		d.line(ind, "%v", v.Interface())
		return
	}
	t := v.Type()
	d.line(ind, "%s", t.Name())
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		if ft.Type == posType || ft.Type == commentType || ft.Type == objType || ft.Type == scopeType || !ft.IsExported() {
			continue
		}
		fv := v.Field(i)
		switch fv.Kind() {
		case reflect.Ptr, reflect.Interface:
			if fv.IsNil() {
				continue
			}
			d.line(ind+1, ".%s", ft.Name)
			d.node(fv.Interface(), ind+2)
		case reflect.Slice:
			d.line(ind+1, ".%s", ft.Name)
			for j := 0; j < fv.Len(); j++ {
				d.node(fv.Index(j).Interface(), ind+2)
			}
		default:
			d.line(ind+1, ".%s %v", ft.Name, fv.Interface())
		}
	}
}

func (d *dumper) fieldRest(f *ast.Field, ind int) {
	d.node(f.Type, ind)
	if f.Tag != nil {
		d.node(f.Tag, ind)
	}
}

func (d *dumper) ident(n *ast.Ident) string {
	if d.blind {
		switch n.Name {
		case "uint8":
			return "byte"
		case "int32":
			return "rune"
		}
		return n.Name
	}
	o := d.info.Uses[n]
	if o == nil {
		return n.Name
	}
	if o.Parent() == types.Universe {
		switch n.Name {
		case "uint8":
			return "byte"
		case "int32":
			return "rune"
		}
		return "universe." + n.Name
	}
	if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		return fmt.Sprintf("«%s».%s", o.Pkg().Path(), n.Name)
	}
	return n.Name
}

// diffDump describes the first difference of two dumps.
func diffDump(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(no declaration)", "(no declaration)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w == g {
			continue
		}
		wl, gl := strings.Split(w, "\n"), strings.Split(g, "\n")
		for j := 0; ; j++ {
			a, b := "(end)", "(end)"
			if j < len(wl) {
				a = wl[j]
			}
			if j < len(gl) {
				b = gl[j]
			}
			if a != b {
				lo := j - 4
				if lo < 0 {
					lo = 0
				}
				return fmt.Sprintf("declaration %d differs:\n  context: %s\n  want: %s\n  got:  %s", i, strings.Join(wl[lo:j], " / "), a, b)
			}
		}
	}
	return ""
}
