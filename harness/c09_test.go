package harness

import (
	"fmt"
	"go/ast"
	"go/token"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// commentMap lists the comments of a file in order, each with the element it
// is attached to (or, for others, the declaration it is in or comes before).
func commentMap(fset *token.FileSet, f *ast.File) []string {
	owner := map[*ast.CommentGroup]string{}
	set := func(c *ast.CommentGroup, o string) {
		if c != nil {
			owner[c] = o
		}
	}
	set(f.Doc, "package doc")
	where := func(p token.Pos) string {
		for i, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			if p < d.Pos() {
				return fmt.Sprintf("before %s", declName(f, i))
			}
			if p < d.End() {
				return "inside " + declName(f, i)
			}
		}
		return "at the end"
	}
	for i, d := range f.Decls {
		n := declName(f, i)
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Lparen.IsValid() {
				set(d.Doc, "doc of group "+n)
			} else {
				set(d.Doc, "doc of "+n)
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					set(s.Doc, "doc of "+s.Names[0].Name)
					set(s.Comment, "end of "+s.Names[0].Name)
				case *ast.TypeSpec:
					set(s.Doc, "doc of "+s.Name.Name)
					set(s.Comment, "end of "+s.Name.Name)
				}
			}
		case *ast.FuncDecl:
			set(d.Doc, "doc of "+n)
		}
		k := 0
		ast.Inspect(d, func(x ast.Node) bool {
			if fl, ok := x.(*ast.Field); ok {
				k++
				set(fl.Doc, fmt.Sprintf("doc of field %d %v in %s", k, fieldNamesOf(fl), n))
				set(fl.Comment, fmt.Sprintf("end of field %d %v in %s", k, fieldNamesOf(fl), n))
			}
			return true
		})
	}
	gs := append([]*ast.CommentGroup{}, f.Comments...)
	sort.SliceStable(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	var out []string
	for _, g := range gs {
		o := owner[g]
		if o == "" {
			o = where(g.Pos())
			if g.Pos() < f.Package {
				o = "head of the file"
			} else if fset.Position(g.Pos()).Line == fset.Position(f.Package).Line {
				o = "package clause"
			}
		}
		var ls []string
		for _, c := range g.List {
			ls = append(ls, c.Text)
		}
		out = append(out, o+":\n"+strings.Join(ls, "\n"))
	}
	return out
}

func declName(f *ast.File, i int) string {
	switch d := f.Decls[i].(type) {
	case *ast.FuncDecl:
		return "func " + d.Name.Name
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.ValueSpec:
				return s.Names[0].Name
			case *ast.TypeSpec:
				return s.Name.Name
			}
		}
	}
	return "?"
}

func fieldNamesOf(f *ast.Field) []string {
	var r []string
	for _, n := range f.Names {
		r = append(r, n.Name)
	}
	return r
}

func (f *FileM) eachComment(fn func(kind, c string)) {
	call := func(k, c string) {
		if c != "" {
			fn(k, c)
		}
	}
	call("file", f.FileComment)
	call("package", f.PkgComment)
	for _, e := range f.Elems {
		call("group", e.Comment)
		for _, v := range e.Vals {
			call([]string{"const", "var"}[e.Kind], v.Comment)
		}
		if e.Fn != nil {
			call("func", e.Fn.Comment)
		}
	}
	f.eachType(func(t *TypeM) {
		call("type", t.Comment)
		for _, fl := range t.Fields {
			call(cond(t.Name == "", "inline ")+"field", fl.Comment)
		}
		for _, el := range t.Elems {
			call(cond(t.Name == "", "inline ")+"interface element", el.Comment)
		}
	})
}

func TestC09(t *testing.T) {
	rapid.Check(t, func(t R) {
		p := genProg(t, ProgOpts{Comments: 9, MaxPkgs: 1, MaxFiles: 2, MaxElems: 6, Depth: 1})
		var cl []string
		n := 0
		for _, f := range p.AllFiles() {
			f.eachComment(func(k, c string) {
				n++
				cl = append(cl, "on "+k)
				if strings.Contains(c, "\n") {
					cl = append(cl, "several lines")
				}
				if strings.Contains(c, "*/") || strings.Contains(c, "/*") {
					cl = append(cl, "comment delimiters")
				}
			})
		}
		refS := refSrcs(p, true)
		evCase(strings.Join(refS, "\n=====\n"), n >= 2, cl...)
		bare := p.clone()
		bare.strip()
		got := renderProg(t, p)
		gotBare := renderProg(t, bare)
		for i, f := range p.AllFiles() {
			want := gofmt(refS[i])
			rset, rf, _ := parseSrc(want)
			gset, gf, err := parseSrc(got.srcs[i])
			if err != nil {
				t.Fatalf("rendered file does not parse: %v\n%s", err, numbered(got.srcs[i]))
			}
			wc, gc := commentMap(rset, rf), commentMap(gset, gf)
			for k := 0; k < len(wc) || k < len(gc); k++ {
				w, g := "(none)", "(none)"
				if k < len(wc) {
					w = wc[k]
				}
				if k < len(gc) {
					g = gc[k]
				}
				if w != g {
					t.Fatalf("comment %d of %s differs:\nwant %s\ngot  %s\n%s\n--- reference:\n%s", k, f.Name, w, g, numbered(got.srcs[i]), want)
				}
			}
			_, bf, err := parseSrc(gotBare.srcs[i])
			if err != nil {
				t.Fatalf("rendered file without comments does not parse: %v\n%s", err, numbered(gotBare.srcs[i]))
			}
			a, b := dumpRaw(bf), dumpRaw(gf)
			if d := diffDump(a, b); d != "" {
				t.Fatalf("the code of %s differs from the code without comments: %s\n%s\n--- without:\n%s", f.Name, d, numbered(got.srcs[i]), gotBare.srcs[i])
			}
		}
	})
}

// dumpRaw prints the code of a file as written, imports included.
func dumpRaw(f *ast.File) []string {
	var r []string
	for _, is := range f.Imports {
		n := ""
		if is.Name != nil {
			n = is.Name.Name
		}
		r = append(r, "import "+n+" "+is.Path.Value)
	}
	d := &dumper{blind: true, raw: true}
	return append(r, d.file(f)...)
}
