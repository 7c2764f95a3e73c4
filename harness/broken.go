package harness

import (
	"fmt"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	g "github.com/jhump/gopoet"
)

// A file with a syntax error is reported together with its unformatted
// source: the way to see exactly what the library wrote.

// renderBroken adds an element that is not valid Go and renders the file. It
// returns the unformatted source.
func renderBroken(t R, f *g.GoFile) string {
	f.AddElement(g.NewFunc("1broken"))
	return unformatted(t, f)
}

func unformatted(t R, f *g.GoFile) string {
	var err error
	var s string
	mustNot(t, "rendering a file with a syntax error", func() { s, err = render(f) })
	fe, ok := err.(*g.FormatError)
	if !ok {
		t.Fatalf("rendering a file with a syntax error gave error %v (%T), want a *FormatError", err, err)
	}
	if s != "" {
		t.Fatalf("rendering a file with a syntax error wrote %q", s)
	}
	return string(fe.Unformatted)
}

// importTable reads the import block of a source whose rest may be broken,
// as local names by path; real gives the names of packages without alias.
func importTable(t R, src string, real map[string]string) map[string]string {
	f, err := parser.ParseFile(token.NewFileSet(), "f.go", src, parser.ImportsOnly)
	if err != nil {
		t.Fatalf("the import block does not parse: %v\n%s", err, numbered(src))
	}
	r := map[string]string{}
	for _, is := range f.Imports {
		path, err := strconv.Unquote(is.Path.Value)
		if err != nil {
			t.Fatalf("import path %s", is.Path.Value)
		}
		n := real[path]
		if is.Name != nil {
			n = is.Name.Name
		}
		r[path] = n
	}
	return r
}

// tableQualifier turns an import table into a qualifier. Packages that are not
// imported get a text that nothing renders as.
func tableQualifier(own string, tab map[string]string) qualifier {
	return func(path string) string {
		if path == own {
			return ""
		}
		n, ok := tab[path]
		if !ok {
			return fmt.Sprintf("«not imported: %s».", path)
		}
		return n + "."
	}
}

func mark(i int, end bool) string {
	if end {
		return fmt.Sprintf("⟦E%d⟧", i)
	}
	return fmt.Sprintf("⟦B%d⟧", i)
}

// between gives the text between the markers of number i.
func between(t R, src string, i int) string {
	b := strings.Index(src, mark(i, false))
	e := strings.Index(src, mark(i, true))
	if b < 0 || e < b || strings.Count(src, mark(i, false)) != 1 || strings.Count(src, mark(i, true)) != 1 {
		t.Fatalf("the code with marker %d is missing or there more than once\n%s", i, numbered(src))
	}
	return src[b+len(mark(i, false)) : e]
}
