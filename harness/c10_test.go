package harness

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"strings"
	"testing"
	"text/template"
	"time"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// cbOp is one call on a code block, with a function that makes it and the text
// it stands for.
type cbOp struct {
	desc  string
	apply func(codeSink)
	want  func(q qualifier) string
	kind  string
}

// codeSink is what code blocks and functions have in common.
type codeSink struct {
	cb *g.CodeBlock
	fn *g.FuncSpec
	// the block is made by the first operation, with a package-level function
	first **g.CodeBlock
}

func (s codeSink) block(start func() *g.CodeBlock, add func(cb *g.CodeBlock) *g.CodeBlock) {
	cb := s.cb
	if s.first != nil {
		if *s.first == nil {
			*s.first = start()
			return
		}
		cb = *s.first
	}
	if add(cb) != cb {
		panic("a method of a code block returns another one")
	}
}

func (s codeSink) print(x string) {
	if s.fn != nil {
		if s.fn.Print(x) != s.fn {
			panic("a method of a function returns another one")
		}
	} else {
		s.block(func() *g.CodeBlock { return g.Print(x) }, func(cb *g.CodeBlock) *g.CodeBlock { return cb.Print(x) })
	}
}
func (s codeSink) println(x string) {
	if s.fn != nil {
		if s.fn.Println(x) != s.fn {
			panic("a method of a function returns another one")
		}
	} else {
		s.block(func() *g.CodeBlock { return g.Println(x) }, func(cb *g.CodeBlock) *g.CodeBlock { return cb.Println(x) })
	}
}
func (s codeSink) printf(f string, a ...any) {
	if s.fn != nil {
		if s.fn.Printf(f, a...) != s.fn {
			panic("a method of a function returns another one")
		}
	} else {
		s.block(func() *g.CodeBlock { return g.Printf(f, a...) }, func(cb *g.CodeBlock) *g.CodeBlock { return cb.Printf(f, a...) })
	}
}
func (s codeSink) printlnf(f string, a ...any) {
	if s.fn != nil {
		if s.fn.Printlnf(f, a...) != s.fn {
			panic("a method of a function returns another one")
		}
	} else {
		s.block(func() *g.CodeBlock { return g.Printlnf(f, a...) }, func(cb *g.CodeBlock) *g.CodeBlock { return cb.Printlnf(f, a...) })
	}
}
func (s codeSink) render(t *template.Template, d any) {
	if s.fn != nil {
		if s.fn.RenderCode(t, d) != s.fn {
			panic("a method of a function returns another one")
		}
	} else {
		s.block(func() *g.CodeBlock { return g.RenderCode(t, d) }, func(cb *g.CodeBlock) *g.CodeBlock { return cb.RenderCode(t, d) })
	}
}
func (s codeSink) add(c *g.CodeBlock) {
	if s.fn != nil {
		s.fn.AddCode(c)
	} else {
		s.block(func() *g.CodeBlock { return g.Print("").AddCode(c) }, func(cb *g.CodeBlock) *g.CodeBlock { return cb.AddCode(c) })
	}
}

var c10Texts = []string{"", "%", "%%", "100%", "%s", "%!d(x)", "\n", "\n\n", "a\nb", "\t", " x ", "{{.X}}", "{{", "\"", "`", "\\n", "é世", "%d items\n", "\r\n", "// c", "/*", "*/", "}", "§", "\x00", "%[1]s"}

func c10Text(t R) string {
	if rP(t, 4) {
		return string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes"))
	}
	if rP(t, 5) {
		return rapid.StringN(0, 8, -1).Draw(t, "text")
	}
	return rPick(t, c10Texts)
}

type c10Stringer struct{ n int }

func (s c10Stringer) String() string { return fmt.Sprintf("S<%d>", s.n) }

type c10Pair struct {
	A int
	B string
}

// c10Format draws a format with its arguments: what is handed to the library,
// and the same with plain strings for the references.
func c10Format(t R, pool []*MPkg, own string) (format, desc string, args []any, want func(q qualifier) []any, refs int) {
	var wants []func(q qualifier) any
	addPlain := func(a any) {
		args = append(args, a)
		wants = append(wants, func(qualifier) any { return a })
	}
	addRef := func() {
		refs++
		a, d, w := c10Ref(t, pool, own)
		args = append(args, a)
		desc += d + " "
		wants = append(wants, func(q qualifier) any { return w(q) })
	}
	addSig := func() {
		refs++
		var ps [3]g.Package
		for i := range ps {
			pk := rPick(t, pool)
			ps[i] = g.Package{ImportPath: pk.Path, Name: pk.Name}
			if rP(t, 3) {
				ps[i] = g.Package{ImportPath: own, Name: "owner"}
			}
			desc += "signature with " + ps[i].ImportPath + " "
		}
		vari := rP(t, 5)
		mk := func(ps [3]g.Package) any {
			return &g.Signature{Args: []g.ArgType{{Name: "a", Type: g.PointerType(g.NamedType(ps[0].Symbol("T0")))}, {Name: "b", Type: g.SliceType(g.NamedType(ps[1].Symbol("T1")))}},
				Results: []g.ArgType{{Type: g.NamedType(ps[2].Symbol("T0"))}}, IsVariadic: vari}
		}
		arg := mk(ps)
		if rP(t, 5) {
			arg = *arg.(*g.Signature)
			desc += "(by value) "
		}
		args = append(args, arg)
		wants = append(wants, func(q qualifier) any {
			var qs [3]g.Package
			for i, p := range ps {
				qs[i].Name = strings.TrimSuffix(q(p.ImportPath), ".")
			}
			return mk(qs)
		})
	}
	n := rSize(t, 20, 0, 1, 2, 3, 4, 5)
	for i := 0; i < n; i++ {
		if rP(t, 1) && rP(t, 8) {
			format += rPick(t, []string{"%v", "%+v", "%s"})
			addSig()
		}
		switch rInt(t, 0, 7) {
		case 0, 1:
			format += strings.ReplaceAll(c10Text(t), "%", "%%")
		case 2:
			format += "%%"
		case 3, 4:
			format += rPick(t, []string{"%s", "%v", "%s", "%20s", "%-20v|", "%q", "%.40s", "%+v", "%x"})
			addRef()
		case 5:
			format += rPick(t, []string{"%v", "%d", "%+v", "%#v", "%s", "%5v", "%T", "%x"})
			addPlain(rPick(t, []any{1, "s%d", 2.5, true, nil, []int{1, 2}, c10Pair{1, "x"}, &c10Pair{2, "y"}, errors.New("e%"), c10Stringer{3}, 'x', time.Second, []byte("ab"), map[string]int{"a": 1, "b": 2}}))
		case 6: // explicit index: repeats an argument
			if len(args) > 0 {
				format += fmt.Sprintf("%%[%d]v%%[%d]v", rInt(t, 1, len(args)), len(args))
			}
		case 7:
			format += "%*d"
			addPlain(rInt(t, 0, 6))
			addPlain(7)
		}
	}
	if rP(t, 1) {
		format += "%d" // one too few
	}
	return format, desc, args, func(q qualifier) []any {
		var r []any
		for _, w := range wants {
			r = append(r, w(q))
		}
		return r
	}, refs
}

// c10Ref draws a reference that every verb renders like its string.
func c10Ref(t R, pool []*MPkg, own string) (any, string, func(q qualifier) string) {
	pk := rPick(t, pool)
	path, name := pk.Path, pk.Name
	if rP(t, 3) {
		path, name = own, "owner"
	}
	gp := g.Package{ImportPath: path, Name: name}
	if path != own && rP(t, 3) {
		gp.Name = ""
	}
	elem := rPick(t, []string{"T0", "V1", "F0", "Ünï"})
	q1 := func(q qualifier) string { return q(path) + elem }
	switch rInt(t, 0, 5) {
	case 0:
		if path == own {
			path = pk.Path
			gp = g.Package{ImportPath: pk.Path, Name: pk.Name}
		}
		return gp, "pkg " + path, func(q qualifier) string { return strings.TrimSuffix(q(path), ".") }
	case 1:
		s := gp.Symbol(elem)
		return &s, "sym " + path + "." + elem, q1
	case 2:
		return g.MethodReference{Type: gp.Symbol(elem), Method: "Mé"}, "method " + path + "." + elem, func(q qualifier) string { return q1(q) + ".Mé" }
	case 3:
		return g.PointerType(g.NamedType(gp.Symbol(elem))), "*" + path + "." + elem, func(q qualifier) string { return "*" + q1(q) }
	case 4:
		return g.NamedType(gp.Symbol(elem)), "type " + path + "." + elem, q1
	}
	return gp.Symbol(elem), "sym " + path + "." + elem, q1
}

var c10Templates = []string{
	"{{.A}}", "x{{range .L}}<{{.}}>{{end}}y", "{{if .On}}{{.A}}{{else}}{{.B}}{{end}}", `{{printf "%s|%20s|%v" .A .B .N}}`, "{{len .L}} {{.N}}%d %s", "{{with .A}}{{.}}{{end}}\n{{.B -}}  \n z",
	"{{index .L 0}}{{index .M \"k\"}}", "{{range $i, $e := .L}}{{$i}}:{{$e}},{{end}}", "plain % text", "{{.S.X}}{{.S.Y}}", "{{.P.X}}-{{.P.Y}}", "{{range $k, $v := .M}}{{$k}}={{$v}} {{end}}", "{{js .N}}{{.Txt}}",
}

// genC10Template makes a template out of what the template package offers:
// associated templates, functions, other delimiters and options. The last
// result says that the template makes no use of its data's fields.
func genC10Template(t R, classes *[]string) (*template.Template, string, bool) {
	class := func(s string) { *classes = append(*classes, s) }
	from := c10Templates
	lax := rP(t, 2)
	if lax {
		from = c10LaxTemplates
	}
	text := strings.Join([]string{rPick(t, from), rPick(t, from)}[:rInt(t, 1, 2)], " ")
	tm := template.New(rPick(t, []string{"x", "", "m", "zz", "a b"}))
	desc := ""
	if rP(t, 3) {
		class("template with functions")
		tm.Funcs(template.FuncMap{"up": func(v any) string { return strings.ToUpper(fmt.Sprint(v)) }, "len": func(v any) string { return "own len" }})
		text += rPick(t, []string{"{{up 3}}", "{{len 3}}", `{{"a.b" | up}}`})
		desc += "funcs "
	}
	missing := "{{.M.nokey}}|{{.MI.two}}{{.MI.one}}|{{index .M \"nokey\"}}"
	switch rInt(t, 0, 5) {
	case 0:
		class("template with an option")
		o := rPick(t, []string{"missingkey=default", "missingkey=zero", "missingkey=error", "missingkey=invalid"})
		tm.Option(o)
		desc += o + " "
		if !lax && o != "missingkey=error" {
			text += missing
		}
	case 1:
		if !lax {
			class("missing key")
			text += missing
		}
	}
	var extra []string
	if rP(t, 4) {
		class("template with associated templates")
		for _, n := range []string{"one", "a", "zzz", "x2"}[:rInt(t, 1, 4)] {
			sub := rPick(t, from)
			extra = append(extra, fmt.Sprintf("{{define %q}}%s{{end}}", n, sub))
			if rP(t, 5) {
				text += fmt.Sprintf("{{template %q .}}", n)
			}
		}
		if rP(t, 3) {
			text += fmt.Sprintf("{{block %q .}}%s{{end}}", "blk", rPick(t, from))
		}
	}
	if rP(t, 2) {
		class("template with other delimiters")
		d := rPick(t, [][2]string{{"<%", "%>"}, {"[[", "]]"}, {"«", "»"}})
		tm.Delims(d[0], d[1])
		r := strings.NewReplacer("{{", d[0], "}}", d[1])
		text = r.Replace(text)
		for i := range extra {
			extra[i] = r.Replace(extra[i])
		}
		desc += d[0] + d[1] + " "
	}
	if rP(t, 5) {
		template.Must(tm.Parse(strings.Join(extra, "") + text))
	} else {
		// the associated templates are added after the template itself
		for _, e := range extra {
			template.Must(tm.New("junk").Parse(e))
		}
		template.Must(tm.Parse(text))
		if rP(t, 3) {
			template.Must(tm.New("other").Parse("OTHER"))
		}
	}
	return tm, desc + strings.Join(extra, "") + text, lax
}

var c10LaxTemplates = []string{"plain", "{{1}}", "{{if .}}data{{else}}none{{end}}", "{{printf \"%d%%\" 3}}", "{{with $x := 3}}{{$x}}{{end}}", "{{/* nothing */}}", "{{- 3 -}}"}

type c10Inner struct {
	X any
	Y string
}

type c10Data struct {
	A, B any
	L    []any
	M    map[string]any
	N    int
	On   bool
	S    c10Inner
	P    *c10Inner
	Txt  string
	MI   map[string]int
}

// c10Shared is a code block that several others begin with.
type c10Shared struct {
	cb   *g.CodeBlock
	desc string
	want func(q qualifier) string
}

func genC10Shared(t R, pool []*MPkg, own string, n int, classes *[]string) *c10Shared {
	sh := &c10Shared{cb: &g.CodeBlock{}}
	var ops []*cbOp
	for i := rInt(t, 1, 5); i > 0; i-- {
		o := genC10Op(t, pool, own, 0, nil, classes)
		o.apply(codeSink{cb: sh.cb})
		ops = append(ops, o)
		sh.desc += o.desc + "; "
	}
	sh.desc = fmt.Sprintf("shared block %d", n) + cond(n >= 0, " ("+sh.desc+")")
	sh.want = func(q qualifier) (s string) {
		for _, o := range ops {
			s += o.want(q)
		}
		return s
	}
	return sh
}

func genC10Op(t R, pool []*MPkg, own string, d int, shared []*c10Shared, classes *[]string) *cbOp {
	class := func(s string) { *classes = append(*classes, s) }
	k := rWeighted(t, 3, 3, 4, 3, 2, 3)
	if d <= 0 && k == 5 {
		k = 2
	}
	switch k {
	case 0:
		s := c10Text(t)
		class("Print")
		return &cbOp{fmt.Sprintf("Print(%q)", s), func(c codeSink) { c.print(s) }, func(qualifier) string { return s }, ""}
	case 1:
		s := c10Text(t)
		class("Println")
		return &cbOp{fmt.Sprintf("Println(%q)", s), func(c codeSink) { c.println(s) }, func(qualifier) string { return s + "\n" }, ""}
	case 2, 3:
		f, ds, args, want, refs := c10Format(t, pool, own)
		if refs > 0 {
			class("format with references")
		}
		if k == 3 {
			class("Printlnf")
			return &cbOp{fmt.Sprintf("Printlnf(%q, %d args: %s)", f, len(args), ds), func(c codeSink) { c.printlnf(f, args...) }, func(q qualifier) string { return fmt.Sprintf(f, want(q)...) + "\n" }, ""}
		}
		class("Printf")
		extra := rP(t, 1) && !strings.Contains(f, "%[")
		if extra {
			args = append(args, 42)
		}
		return &cbOp{fmt.Sprintf("Printf(%q, %d args: %s)", f, len(args), ds), func(c codeSink) { c.printf(f, args...) }, func(q qualifier) string {
			w := want(q)
			if extra {
				w = append(w, 42)
			}
			return fmt.Sprintf(f, w...)
		}, ""}
	case 4:
		class("RenderCode")
		tm, text, lax := genC10Template(t, classes)
		oracleTm := template.Must(tm.Clone()) // (which nothing but the oracle uses)
		type slot struct {
			a any
			w func(q qualifier) string
		}
		var slots []slot
		ds := ""
		for i := 0; i < 8; i++ {
			if rP(t, 4) {
				s := c10Text(t)
				slots = append(slots, slot{s, func(qualifier) string { return s }})
				continue
			}
			a, dd, w := c10Ref(t, pool, own)
			ds += dd + " "
			slots = append(slots, slot{a, w})
		}
		n, on, txt := rInt(t, 0, 3), rP(t, 8), c10Text(t)
		mk := func(f func(i int) any) *c10Data {
			return &c10Data{A: f(0), B: f(1), L: []any{f(2), f(3), "lit"}, M: map[string]any{"k": f(4), "a": f(5)}, N: n, On: on, S: c10Inner{f(6), "y"}, P: &c10Inner{f(7), "w"}, Txt: txt, MI: map[string]int{"one": 1}}
		}
		var data any = mk(func(i int) any { return slots[i].a })
		if lax && rP(t, 3) {
			// such a template can be executed on no data at all
			class("template on nil data")
			data, ds = nil, "nil"
		}
		return &cbOp{fmt.Sprintf("RenderCode(%q, %s)", text, ds), func(c codeSink) { c.render(tm, data) }, func(q qualifier) string {
			var b bytes.Buffer
			var replaced any
			if data != nil {
				replaced = mk(func(i int) any { return slots[i].w(q) })
			}
			if err := oracleTm.Execute(&b, replaced); err != nil {
				harnessBug("template %q: %v", text, err)
			}
			return b.String()
		}, "template"}
	default:
		class("AddCode")
		var sub []*cbOp
		var ds []string
		for i := rInt(t, 0, 4); i > 0; i-- {
			o := genC10Op(t, pool, own, d-1, shared, classes)
			sub = append(sub, o)
			ds = append(ds, o.desc)
		}
		twice := rP(t, 2)
		itself := rP(t, 2)
		if itself {
			class("a block added to itself")
		}
		route := rInt(t, 0, 2)
		var sh *c10Shared
		if len(shared) > 0 && rP(t, 5) {
			sh = rPick(t, shared)
			ds = append([]string{sh.desc}, ds...)
			class("begins with a shared block")
		}
		return &cbOp{fmt.Sprintf("AddCode(%s; itself %v; twice %v)", strings.Join(ds, ", "), itself, twice), func(c codeSink) {
			cb := &g.CodeBlock{}
			if sh != nil {
				cb.AddCode(sh.cb)
			}
			if route == 2 && sh == nil && len(sub) > 0 {
				cb = nil
			}
			for _, o := range sub {
				if route == 2 && sh == nil {
					o.apply(codeSink{first: &cb})
				} else {
					o.apply(codeSink{cb: cb})
				}
			}
			if route == 1 { // through the convenience function
				cb = g.Print("").AddCode(cb)
			}
			if itself {
				cb.AddCode(cb)
			}
			c.add(cb)
			if twice {
				c.add(cb)
			}
		}, func(q qualifier) string {
			s := ""
			if sh != nil {
				s = sh.want(q)
			}
			for _, o := range sub {
				s += o.want(q)
			}
			if itself {
				s += s
			}
			if twice {
				s += s
			}
			return s
		}, ""}
	}
}

func TestC10(t *testing.T) {
	const own = "ex.com/own/owner"
	rapid.Check(t, func(t R) {
		if rapid.IntRange(0, 7).Draw(t, "finished code") == 7 {
			c10Finished(t)
			return
		}
		pool := genPkgs(t, 1, 4, false)
		for _, p := range pool {
			if p.Path == own {
				t.Skip("own path drawn")
			}
		}
		real := map[string]string{}
		for _, p := range pool {
			real[p.Path] = p.Name
		}
		f := g.NewGoFile("x.go", own, "owner")
		nslots := rInt(t, 1, 4)
		var cl, desc []string
		var slots [][]*cbOp
		nops := 0
		f.AddElement(g.NewFunc("1broken"))
		var shared []*c10Shared
		for i := rInt(t, 0, 2); i > 0; i-- {
			shared = append(shared, genC10Shared(t, pool, own, len(shared), &cl))
		}
		var before []func(q qualifier) string
		for s := 0; s < nslots; s++ {
			var ops []*cbOp
			for i := rSize(t, 30, 0, 1, 2, 3, 4, 5, 6); i > 0; i-- {
				ops = append(ops, genC10Op(t, pool, own, 2, shared, &cl))
			}
			nops += len(ops)
			slots = append(slots, ops)
			b, e := mark(s, false), mark(s, true)
			where := rInt(t, 0, 5)
			var ds []string
			for _, o := range ops {
				ds = append(ds, o.desc)
			}
			kind := []string{"func", "method", "var", "const", "var Initialize", "added block"}[where]
			cl = append(cl, "in "+kind)
			desc = append(desc, kind+": "+strings.Join(ds, "; "))
			before = append(before, nil)
			fill := func(c codeSink) {
				if len(shared) > 0 && rP(t, 3) {
					sh := rPick(t, shared)
					c.add(sh.cb)
					desc[s] = "begins with " + sh.desc + "; " + desc[s]
					before[s] = sh.want
				}
				c.print(b)
				for _, o := range ops {
					o.apply(c)
				}
				c.print(e)
			}
			mustNot(t, "building code", func() {
				switch where {
				case 0, 1:
					fn := g.NewFunc("F")
					if where == 1 {
						fn = g.NewMethod(g.NewReceiver("r", "T"), "M")
					}
					fill(codeSink{fn: fn})
					f.AddElement(fn)
				case 2, 3:
					cb := &g.CodeBlock{}
					fill(codeSink{cb: cb})
					if where == 2 {
						f.AddVar(g.NewVar("V").SetInitializer(cb))
					} else {
						f.AddElement(g.NewConstDecl(g.NewConst("C").SetInitializer(cb), g.NewConst("D")))
					}
				case 4:
					fm, ds, args, want, _ := c10Format(t, pool, own)
					slots[s] = []*cbOp{{want: func(q qualifier) string { return fmt.Sprintf(fm, want(q)...) }}}
					desc[s] = fmt.Sprintf("%s: %q %s", kind, fm, ds)
					f.AddVar(g.NewVar("V").Initialize(b+fm+e, args...))
				default:
					cb := g.Print(b)
					for _, o := range ops {
						one := &g.CodeBlock{}
						o.apply(codeSink{cb: one})
						cb.AddCode(one)
					}
					f.AddElement(g.NewFunc("G").AddCode(cb).AddCode(g.Printf("%s", e)))
				}
			})
		}
		evCase(strings.Join(desc, "\n"), nops >= 2, cl...)
		src := unformatted(t, f)
		q := tableQualifier(own, importTable(t, src, real))
		for s, ops := range slots {
			want := ""
			for _, o := range ops {
				want += o.want(q)
			}
			if before[s] != nil {
				if i := strings.Index(src, mark(s, false)); i < 0 || !strings.HasSuffix(src[:i], before[s](q)) {
					t.Fatalf("code %d does not begin with %q (%s)\n%s", s, before[s](q), desc[s], numbered(src))
				}
			}
			// whether a signature given by value is printed like a pointer does not matter
			bySig := strings.NewReplacer("&{[", "{[", "&{Args:", "{Args:")
			if got := between(t, src, s); bySig.Replace(got) != bySig.Replace(want) {
				t.Fatalf("code %d is\n  %q\nwant\n  %q\n(%s)\n%s", s, got, want, desc[s], numbered(src))
			}
		}
	})
}

// Pieces of code that are valid in any order, for bodies and as initialisers.
var c10Stmts = []string{"_ = 1", "_ = 2 // two", "// note", "/* note */", "/* two\nlines */", "_ = `raw %s\n\n text`", "if true {\n\t// nothing\n}", "{ _ = 3 }", "", "", "\t_  =  4", "_ = \"// no comment\"", "func() {}() // done", "for {\nbreak // out\n}",
	"_ = 5; _ = 6", "switch {\ncase true: // c\n}", "// 100%d", "_ = '\\''", "return", "return // end", "defer func() { /* x */ }()"}
var c10Exprs = []string{"1", "1 // one", "1 /* one */", "1 +\n2", "(1 + // one\n2)", "`a\n%s b`", "\"// no\"", "'%' // percent", "len(\n\"abc\",\n) // three"}

// c10Finished checks whole files with valid code, however it is cut into pieces
// and however it ends.
func c10Finished(t R) {
	f := g.NewGoFile("x.go", "ex.com/own/owner", "owner")
	ref := "package owner\n\n"
	var desc, cl []string
	cl = append(cl, "finished code")
	for n := rInt(t, 1, 4); n > 0; n-- {
		isBody := rP(t, 6)
		text := ""
		if isBody {
			var ls []string
			for i := rSize(t, 20, 0, 1, 2, 3, 4, 5); i > 0; i-- {
				ls = append(ls, rPick(t, c10Stmts))
			}
			text = strings.Join(ls, "\n")
			if rP(t, 4) {
				text += "\n"
			} else if i := strings.LastIndex(text, "\n"); strings.Contains(text[i+1:], "//") && !strings.HasSuffix(text, "\"") {
				cl = append(cl, "ends with a comment")
			}
		} else {
			text = rPick(t, c10Exprs)
		}
		var ops []func(codeSink)
		d := ""
		for rest := text; rest != ""; {
			k := len(rest)
			if rP(t, 7) {
				k = rInt(t, 1, len(rest))
			}
			x := rest[:k]
			rest = rest[k:]
			switch rInt(t, 0, 5) {
			case 0, 1:
				if strings.HasSuffix(x, "\n") {
					ops = append(ops, func(c codeSink) { c.println(x[:len(x)-1]) })
					d += fmt.Sprintf("Println(%q) ", x[:len(x)-1])
					continue
				}
				ops = append(ops, func(c codeSink) { c.print(x) })
				d += fmt.Sprintf("Print(%q) ", x)
			case 2:
				ops = append(ops, func(c codeSink) { c.printf(strings.ReplaceAll(x, "%", "%%")) })
				d += fmt.Sprintf("Printf(%q) ", x)
			case 3:
				tm := template.Must(template.New("x").Parse("{{.}}"))
				ops = append(ops, func(c codeSink) { c.render(tm, x) })
				d += fmt.Sprintf("RenderCode(%q) ", x)
			case 4:
				ops = append(ops, func(c codeSink) { c.add(g.Print(x)) })
				d += fmt.Sprintf("AddCode(%q) ", x)
			default:
				ops = append(ops, func(c codeSink) { c.printf("%s", x) })
				d += fmt.Sprintf("Printf(%%s, %q) ", x)
			}
		}
		fill := func(c codeSink) {
			for _, o := range ops {
				o(c)
			}
		}
		switch kind := rInt(t, 0, 1); {
		case isBody && kind == 0:
			fn := g.NewFunc(fmt.Sprintf("f%d", n))
			fill(codeSink{fn: fn})
			f.AddElement(fn)
			ref += fmt.Sprintf("func f%d() {\n%s\n}\n\n", n, text)
		case isBody:
			fn := g.NewMethod(g.NewPointerReceiver("r", "T"), fmt.Sprintf("M%d", n))
			fill(codeSink{fn: fn})
			f.AddElement(fn)
			ref += fmt.Sprintf("func (r *T) M%d() {\n%s\n}\n\n", n, text)
		case kind == 0:
			cb := &g.CodeBlock{}
			fill(codeSink{cb: cb})
			f.AddVar(g.NewVar(fmt.Sprintf("v%d", n)).SetInitializer(cb))
			ref += fmt.Sprintf("var v%d = %s\n\n", n, text)
		default:
			cb := &g.CodeBlock{}
			fill(codeSink{cb: cb})
			f.AddElement(g.NewConstDecl(g.NewConst(fmt.Sprintf("c%d", n)).SetInitializer(cb), g.NewConst(fmt.Sprintf("d%d", n)).Initialize("2 // two")))
			ref += fmt.Sprintf("const (\nc%d = %s\nd%d = 2 // two\n)\n\n", n, text, n)
		}
		desc = append(desc, cond(isBody, "body ")+d)
	}
	want, err := format.Source([]byte(ref))
	if err != nil {
		harnessBug("%v\n%s", err, ref)
	}
	evCase(strings.Join(desc, "\n"), true, cl...)
	got := mustRender(t, f, "the file")
	if noSpace(got) != noSpace(string(want)) {
		t.Fatalf("the file is\n%s\nwant\n%s\n(%s)", got, want, strings.Join(desc, "\n"))
	}
}

// noSpace leaves out what is up to gofmt (which also moves the lines of comments).
func noSpace(s string) string { return strings.Join(strings.Fields(s), "") }
