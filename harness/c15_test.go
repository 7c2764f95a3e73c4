package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"testing"
	"text/template"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// limitWriter records what it is given and fails once it has been given more
// than limit bytes (limit < 0: never).
type limitWriter struct {
	b     bytes.Buffer
	limit int
	err   error
	calls int
	late  int // calls after the failure
	bad   bool
	once  bool // takes everything after it failed once
}

func (w *limitWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.bad {
		w.late++
	}
	if w.limit >= 0 && w.b.Len()+len(p) > w.limit && !(w.once && w.bad) {
		n := w.limit - w.b.Len()
		if n < 0 {
			n = 0
		}
		w.b.Write(p[:n])
		w.bad = true
		return n, w.err
	}
	w.b.Write(p)
	return len(p), nil
}

type wErr struct{ s string }

func (e *wErr) Error() string { return e.s }

var writerErrors = []error{errors.New("disk full"), io.EOF, io.ErrShortWrite, os.ErrClosed, &wErr{"custom"}, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), &g.FormatError{Unformatted: []byte("x"), Err: errors.New("odd")}, os.ErrNotExist,
	os.ErrExist, &os.PathError{Op: "open", Path: "f.go", Err: syscall.EEXIST}, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, io.ErrClosedPipe, io.ErrNoProgress, fs.ErrPermission, fs.SkipDir, fs.SkipAll, context.Canceled, errors.ErrUnsupported, syscall.EISDIR, os.ErrDeadlineExceeded}

var fragments = []string{"}", "{", "{}", "(", ")", "[", "if x", "if true {}", "for", "return", "return 1", "x := ", "x := 1", "\"", "'", "'a'", "/*", "*/", "/* ok */", "// ok\n", "#", "$", "a b", "func", "func() {}", "func() {}()",
	"} func zz() {", "}\nfunc zz2() {", "}; var zz = func() {", "1 +", "+ 1", "...", "go", "\\", "@", "=", "a = b", "_ = 1", ";", ",", "\x01", "goto", "switch {", "switch {}", "case 1:", "L:", "type T", "type T int", "var", "const c = 1", "0x", "1e", "é", "\u2028",
	"a.b.c", "import \"x\"", "package p", "<-", "?", "~T", "x.(type)", "[]int{1,2", "map[int]", "else", "defer f()", "1", "\n\n\n", " "}

func fragmentText(t R) string {
	s := ""
	for i := rInt(t, 1, 3); i > 0; i-- {
		s += rPick(t, fragments)
		if rP(t, 4) {
			s += rPick(t, []string{"\n", " "})
		}
	}
	return s
}

func TestC15(t *testing.T) {
	rapid.Check(t, func(t R) {
		mode := rWeighted(t, 4, 5, 3, 1)
		comments := 5
		if mode == 1 {
			comments = 0 // a fragment may leave a comment open
		}
		p := genProg(t, ProgOpts{MaxPkgs: 1, MaxFiles: 1, MaxElems: 4, UnusedRegs: true, Comments: comments})
		files := p.AllFiles()
		fi := rInt(t, 0, len(files)-1)
		f := files[fi]
		switch mode {
		case 0:
			c15Plain(t, p, fi)
		case 1:
			c15Syntax(t, p, fi)
		case 2:
			large := rP(t, 1)
			if large {
				addLarge(t, f)
			}
			b := build(p)
			src := refSrcs(p, false)[fi]
			once := rP(t, 4)
			evCase("failing writer "+src[:min(len(src), 4000)], true, "failing writer", cond(once, "writer that fails once"), cond(large, "large file"))
			want := mustRender(t, build(p).files[fi], "a file")
			w := &limitWriter{limit: rInt(t, 0, len(want)-1), err: rPick(t, writerErrors), once: once}
			if rP(t, 3) {
				w.limit = rPick(t, []int{0, 1, len(want) - 1})
			}
			for i := 0; i < 2; i++ {
				w := *w
				w.b = bytes.Buffer{}
				var err error
				mustNot(t, "rendering to a failing writer", func() { err = g.WriteGoFile(&w, b.files[fi]) })
				if err != w.err {
					t.Fatalf("the writer failed after %d bytes with %v (%T) and the error returned is %v (%T)", w.limit, w.err, w.err, err, err)
				}
				if !once && !strings.HasPrefix(want, w.b.String()) {
					t.Fatalf("the writer was given something else than the file: %q", w.b.String())
				}
			}
			ok := &limitWriter{limit: len(want), err: errors.New("too much")}
			if err := g.WriteGoFile(ok, b.files[fi]); err != nil || ok.b.String() != want {
				t.Fatalf("a writer with room for exactly the file got %d of %d bytes, error %v", ok.b.Len(), len(want), err)
			}
		default:
			// a template that fails
			b := build(p)
			evCase("failing template "+refSrcs(p, false)[fi], true, "failing template")
			terr := errors.New("template function failed")
			tm := template.New("t").Funcs(template.FuncMap{"fail": func() (string, error) { return "", terr }})
			var data any = struct {
				A int
				B *struct{ C int }
				L []int
				M map[string]int
			}{M: map[string]int{}}
			text := "a := 1\n{{.A}}{{" + rPick(t, []string{"fail", ".B.C", "index .L 9", ".M.nokey", ".Nofield", "template \"undefined\""}) + "}}"
			if rP(t, 3) {
				data, text = nil, "a := 1\n"+rPick(t, []string{"{{fail}}", "{{.A}}", "{{index . 1}}", "{{template \"undefined\"}}"})
			}
			if strings.Contains(text, "nokey") {
				tm.Option("missingkey=error")
			}
			if !rP(t, 1) {
				// (a template that was never parsed cannot be executed either)
				template.Must(tm.Parse(text))
			}
			fn := g.NewFunc("Zfails").RenderCode(tm, data)
			b.files[fi].AddElement(fn)
			w := &limitWriter{limit: -1}
			var err error
			// whether it panics or returns an error is its own choice
			panicked, _, _ := caught(func() { err = g.WriteGoFile(w, b.files[fi]) })
			if err == nil && !panicked {
				t.Fatalf("a template that cannot be executed is not reported; written:\n%s", w.b.String())
			}
			if w.b.Len() > 0 {
				t.Fatalf("rendering failed (%v) and still wrote\n%s", err, w.b.String())
			}
		}
		_ = f
	})
}

// addLarge adds a function with a lot of code to the file.
func addLarge(t R, f *FileM) {
	line := rPick(t, []string{"a( 1 )\n", "if x  {\n b  (2)\n }\n", "x = `\n  raw  `\n", "y  := 1;"})
	body := strings.Repeat(line, rPick(t, []int{1 << 10, 1 << 12, 1 << 14, 1<<16 + 1, 1 << 18, 1 << 19})/len(line))
	e := &ElemM{Kind: EFunc, Fn: &FnM{ID: 90002, Name: "Zlarge", Sig: &MT{K: KFunc}, Body: &CodeM{Ops: []*COp{{Kind: OpPrint, Pieces: []Piece{{Lit: body}}}}}}}
	at := rInt(t, 0, len(f.Elems))
	f.Elems = append(f.Elems[:at:at], append([]*ElemM{e}, f.Elems[at:]...)...)
}

const twinText = "\nfunc Zbroken() {\n}\n"

func c15Plain(t R, p *Prog, fi int) {
	large := rP(t, 1) && rP(t, 1)
	if large {
		addLarge(t, p.AllFiles()[fi])
	}
	src := refSrcs(p, true)[fi]
	evCase("plain "+src[:min(len(src), 4000)], strings.Count(src, "\n") > 8 || len(p.AllFiles()[fi].Elems) == 0, "valid file", cond(large, "large file"), cond(len(p.AllFiles()[fi].Elems) == 0, "no elements"))
	w := &limitWriter{limit: -1}
	b := build(p)
	var err error
	mustNot(t, "rendering", func() { err = g.WriteGoFile(w, b.files[fi]) })
	if err != nil {
		t.Fatalf("rendering failed: %v", err)
	}
	got := w.b.String()
	// the source before formatting shows in the error of a broken twin
	unf := renderBroken(t, build(p).files[fi])
	if strings.Count(unf, "1broken") != 1 {
		t.Fatalf("the unformatted source does not hold all of the code\n%s", unf)
	}
	want, ferr := format.Source([]byte(strings.Replace(unf, "1broken", "Zbroken", 1)))
	if ferr != nil {
		t.Fatalf("the unformatted source does not hold all of the code: %v\n%s", ferr, unf)
	}
	twin := build(p).files[fi]
	twin.AddElement(g.NewFunc("Zbroken"))
	s := mustRender(t, twin, "the twin")
	if s != string(want) {
		t.Fatalf("what is written is not the formatted form of what was rendered\n--- written\n%s\n--- rendered and formatted\n%s", s, want)
	}
	if !strings.HasSuffix(s, twinText) {
		t.Fatalf("the last function is not at the end of\n%s", s)
	}
	if strings.TrimRight(strings.TrimSuffix(s, twinText), "\n")+"\n" != got {
		t.Fatalf("a file is written differently with and without another function at its end\n--- without\n%s\n--- with\n%s", got, s)
	}
	again, ferr := format.Source([]byte(got))
	if ferr != nil {
		t.Fatalf("what was written has a syntax error: %v\n%s", ferr, numbered(got))
	}
	if twice, _ := format.Source(again); string(again) != got && bytes.Equal(twice, again) {
		// gofmt itself settles at once on its own output but not on this
		if settled, _ := format.Source(want); string(settled) == string(want) {
			t.Fatalf("what was written is not formatted\n--- written\n%s\n--- formatted\n%s", got, again)
		}
	}
}

func c15Syntax(t R, p *Prog, fi int) {
	f := p.AllFiles()[fi]
	frag := fragmentText(t)
	where := rInt(t, 0, 3)
	var e *ElemM
	switch where {
	case 0:
		e = &ElemM{Kind: EFunc, Fn: &FnM{ID: 90001, Name: "Zfn", Sig: &MT{K: KFunc}, Body: &CodeM{Ops: []*COp{{Kind: OpPrint, Pieces: []Piece{{Lit: frag}}}}}}}
	case 1:
		e = &ElemM{Kind: EVar, Vals: []*ValM{{ID: 90001, Names: []string{"Zv"}, Init: &CodeM{Ops: []*COp{{Kind: OpPrint, Pieces: []Piece{{Lit: frag}}}}}}}}
	case 2:
		e = &ElemM{Kind: EConst, Vals: []*ValM{{ID: 90001, Names: []string{frag}, Init: &CodeM{Ops: []*COp{{Kind: OpPrint, Pieces: []Piece{{Lit: "1"}}}}}}}}
	default:
		e = &ElemM{Kind: EType, Types: []*TypeM{{ID: 90001, Name: "Zt", Body: BodyType, T: &MT{K: KNamed, Sym: MSym{Name: frag}}}}}
	}
	at := rInt(t, 0, len(f.Elems))
	f.Elems = append(f.Elems[:at:at], append([]*ElemM{e}, f.Elems[at:]...)...)
	src, _ := printRef(p, f, false)
	_, perr := parser.ParseFile(token.NewFileSet(), "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	// after some fragments, what follows is read differently depending on line
	// breaks, which the model does not determine
	_, perr2 := parser.ParseFile(token.NewFileSet(), "f.go", strings.ReplaceAll(src, "\n}", "}"), parser.SkipObjectResolution)
	if (perr == nil) != (perr2 == nil) {
		t.Skip("the line breaks decide")
	}
	evCase(fmt.Sprintf("fragment %q\n%s", frag, src), perr != nil, []string{"fragment in body", "fragment in initialiser", "fragment as name", "fragment as type"}[where], cond(perr == nil, "still valid"), cond(perr != nil, "syntax error"))
	b := build(p)
	w := &limitWriter{limit: -1}
	if rP(t, 3) {
		w.limit, w.err = 0, errors.New("must not be written to")
	}
	var err error
	mustNot(t, "rendering", func() { err = g.WriteGoFile(w, b.files[fi]) })
	if perr == nil {
		if w.limit == 0 {
			if err != w.err {
				t.Fatalf("a failing writer is reported as %v", err)
			}
			return
		}
		if err != nil {
			t.Fatalf("rendering valid code failed: %v\n%s", err, numbered(src))
		}
		if _, ferr := parser.ParseFile(token.NewFileSet(), "f.go", w.b.String(), parser.ParseComments); ferr != nil {
			t.Fatalf("what was written has a syntax error: %v\n%s", ferr, numbered(w.b.String()))
		}
		return
	}
	fe, ok := err.(*g.FormatError)
	if !ok {
		t.Fatalf("code with a syntax error (%v) is reported as %v (%T)\n%s", perr, err, err, numbered(src))
	}
	if w.calls > 0 {
		t.Fatalf("rendering failed and still wrote %q", w.b.String())
	}
	_, want := format.Source(fe.Unformatted)
	if want == nil {
		t.Fatalf("the source carried by the error (%v) has no syntax error\n%s", err, fe.Unformatted)
	}
	if fe.Err == nil || fe.Err.Error() != want.Error() || fe.Error() != want.Error() {
		t.Fatalf("the error says %q (underlying %v), the formatter says %q", fe.Error(), fe.Err, want)
	}
	// the carried source is complete: it is that of the file with a harmless
	// piece of code in the same place
	if !bytes.Contains(fe.Unformatted, []byte(strings.TrimRight(frag, "\n "))) {
		t.Fatalf("the source carried by the error lacks %q\n%s", frag, fe.Unformatted)
	}
	for _, el := range f.Elems {
		var names []string
		for _, v := range el.Vals {
			names = append(names, v.Names...)
		}
		for _, ty := range el.Types {
			names = append(names, ty.Name)
		}
		if el.Fn != nil {
			names = append(names, el.Fn.Name)
		}
		for _, n := range names {
			if !bytes.Contains(fe.Unformatted, []byte(strings.TrimSpace(n))) {
				t.Fatalf("the source carried by the error lacks the element %s\n%s", n, fe.Unformatted)
			}
		}
	}
	// the error keeps what it says while other files are rendered
	before, msg := string(fe.Unformatted), fe.Error()
	other := g.NewGoFile("other.go", "ex.com/zz/other", "other")
	other.FileComment = strings.Repeat("another file ", rPick(t, []int{1, 20, 500}))
	if rP(t, 8) {
		other.AddElement(g.NewFunc("2broken"))
	}
	mustNot(t, "rendering another file", func() { g.WriteGoFile(io.Discard, other) })
	if string(fe.Unformatted) != before || fe.Error() != msg {
		t.Fatalf("the error changed when another file was rendered\n--- before: %s\n%s\n--- after: %s\n%s", msg, before, fe.Error(), fe.Unformatted)
	}
	// and rendering again says the same
	var err2 error
	mustNot(t, "rendering again", func() { err2 = g.WriteGoFile(w, b.files[fi]) })
	fe2, ok := err2.(*g.FormatError)
	if !ok || string(fe2.Unformatted) != before || fe2.Error() != msg {
		t.Fatalf("rendering again gives %v, before %v\n%s", err2, msg, before)
	}
}
