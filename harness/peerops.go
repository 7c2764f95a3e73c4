package harness

import (
	"fmt"
	"reflect"
	"text/template"

	g "github.com/jhump/gopoet"
)

// run makes a fresh model of the case, renders it and lists what came out.
func (c *peerCase) run() (out []string) {
	p, v, st := caught(func() {
		switch c.Op {
		case "render":
			out = c.Prog.rendered()
		case "qualify":
			for i := range c.Data {
				out = append(out, c.Data[i].qualified()...)
			}
		case "check":
			for i := range c.Data {
				out = append(out, pureCheck(&c.Data[i]))
			}
		case "names":
			out = c.names()
		case "template":
			out = templated(c.Data)
		default:
			harnessBug("unknown operation %q", c.Op)
		}
	})
	if p {
		out = append(out, fmt.Sprintf("panic: %v\n%s", v, trimStack(st)))
	}
	return out
}

func (p *Prog) rendered() []string {
	b := build(p)
	out := make([]string, len(b.files))
	for _, i := range p.Order {
		s, err := render(b.files[i])
		if fe, ok := err.(*g.FormatError); ok {
			s = "format error " + fe.Error() + "\n" + string(fe.Unformatted)
		} else if err != nil {
			s = "error " + err.Error()
		}
		out[i] = s + "\n" + specList(&b.files[i].Imports)
	}
	return out
}

func specList(im *g.Imports) string {
	s := ""
	for _, x := range im.ImportSpecs() {
		s += x.String() + " -> " + im.PrefixForPackage(x.ImportPath) + "\n"
	}
	return s
}

func (c *DCase) imports() *g.Imports {
	im := g.NewImportsFor(c.Own.Path)
	for _, r := range c.Pre {
		im.RegisterImportForPackage(g.Package{Name: r.Name, ImportPath: r.Path})
	}
	return im
}

// qualified describes the value and the imports after qualifying it.
func (c *DCase) qualified() []string {
	in := newDEnv(c).build(c.T, c.V)
	im := c.imports()
	x := im.QualifyTemplateData(in.Interface())
	return []string{fmt.Sprintf("%T", x), (&describer{own: c.Own.Path, noAddr: true}).describe(slot(reflect.ValueOf(&x).Elem().Elem())), specList(im)}
}

var constTmpl = template.Must(template.New("c").Parse("_ = 1\n"))

// templated renders a file with a function whose body is made by templates
// with the given data.
func templated(cs []DCase) []string {
	own := cs[0].Own
	f := g.NewGoFile("f.go", own.Path, own.Name)
	for _, r := range cs[0].Pre {
		f.RegisterImport(r.Path, r.Name)
	}
	fn := g.NewFunc("Fn")
	for i := range cs {
		in := newDEnv(&cs[i]).build(cs[i].T, cs[i].V)
		fn.RenderCode(constTmpl, in.Interface())
	}
	f.AddElement(fn)
	s, err := render(f)
	if err != nil {
		s = "error " + err.Error()
	}
	return []string{s, specList(&f.Imports)}
}

// report collects the complaint of an oracle in a peer.
type report struct{ msg string }

func (r *report) Fatalf(format string, args ...any) {
	r.msg = fmt.Sprintf(format, args...)
	panic(r)
}

// pureCheck judges what the build without unsafe makes of a value.
func pureCheck(c *DCase) (msg string) {
	r := &report{}
	defer func() {
		if x := recover(); x != nil {
			if x != any(r) {
				panic(x)
			}
			msg = r.msg
		}
	}()
	checkQualified(r, c, true)
	return ""
}

// names lists what small helpers make of the strings given.
func (c *peerCase) names() (out []string) {
	for _, s := range c.Strs {
		s := s
		for i, f := range []func() string{
			func() string { return g.Export(s) },
			func() string { return g.Unexport(s) },
			func() string { return fmt.Sprintf("%#v", g.NewPackage(s)) },
			func() string { return g.NewSymbol(s, "X").String() },
			func() string { return fmt.Sprint(g.NewGoFile(s, "p", "p").Name) },
			func() string {
				im := g.NewImportsFor("own.example/p")
				im.RegisterImport("x.y/z", "z")
				return im.RegisterImport(s, "") + im.RegisterImport(s+"/z", "z") + specList(im)
			},
		} {
			r := ""
			if p, v := panics(func() { r = f() }); p {
				r = fmt.Sprintf("panic %v", v)
			}
			out = append(out, fmt.Sprintf("%q %d: %s", s, i, r))
		}
	}
	return out
}
