package harness

import (
	"go/types"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// progResult is a program rendered in its order.
type progResult struct {
	b    *builder
	srcs []string // by file index
}

func renderProg(t R, p *Prog) *progResult {
	r := &progResult{}
	mustNot(t, "building the model", func() { r.b = build(p) })
	r.srcs = make([]string, len(r.b.files))
	for _, i := range p.Order {
		r.srcs[i] = mustRender(t, r.b.files[i], "file "+p.AllFiles()[i].Name)
	}
	return r
}

// checkPkgs type-checks the given sources (by file index), package by package
// in dependency order.
func checkPkgs(p *Prog, srcs []string) []*checked {
	w := newWorld(p.Ext)
	var out []*checked
	k := 0
	for _, pk := range p.Pkgs {
		var s []string
		for range pk.Files {
			s = append(s, srcs[k])
			k++
		}
		c := typecheck(w, pk.Path, s...)
		w.gen[pk.Path] = c.pkg
		if c.pkg == nil {
			w.gen[pk.Path] = types.NewPackage(pk.Path, pk.Name)
		}
		out = append(out, c)
	}
	return out
}

func refSrcs(p *Prog, comments bool) []string {
	var r []string
	for _, f := range p.AllFiles() {
		s, _ := printRef(p, f, comments)
		r = append(r, s)
	}
	return r
}

// progFeatures lists the reference forms and other features of a program.
func progFeatures(p *Prog) (classes []string, refs int) {
	real := map[string][]string{}
	for _, e := range p.Ext {
		real[e.Name] = append(real[e.Name], e.Path)
	}
	for _, k := range p.Pkgs {
		real[k.Name] = append(real[k.Name], k.Path)
	}
	for _, v := range real {
		if len(v) > 1 {
			classes = append(classes, "packages with equal names")
		}
	}
	var code func(c *CodeM)
	code = func(c *CodeM) {
		if c == nil {
			return
		}
		for _, op := range c.Ops {
			if op.Kind == OpAddCode {
				classes = append(classes, "nested code")
				code(op.Sub)
			}
			for _, pc := range op.Pieces {
				if pc.Ref == nil {
					continue
				}
				refs++
				s := "ref " + formNames[pc.Ref.Form]
				if op.Kind == OpTemplate {
					s += " in template"
				}
				classes = append(classes, s)
				if pc.Ref.Sym.Path != "" && pc.Ref.Sym.PkgName == "" {
					classes = append(classes, "package name unknown")
				}
			}
		}
	}
	for _, f := range p.AllFiles() {
		for _, e := range f.Elems {
			for _, v := range e.Vals {
				code(v.Init)
				if v.Type != nil {
					refs++
				}
			}
			refs += len(e.Types)
			if e.Fn != nil {
				code(e.Fn.Body)
				if e.Fn.Recv != nil {
					classes = append(classes, "method")
				}
			}
		}
	}
	if len(p.Pkgs) > 1 {
		classes = append(classes, "several generated packages")
	}
	if len(p.AllFiles()) > len(p.Pkgs) {
		classes = append(classes, "several files in a package")
	}
	return
}

func TestC07(t *testing.T) {
	rapid.Check(t, func(t R) {
		p := genProg(t, ProgOpts{Comments: 1})
		refS := refSrcs(p, false)
		ref := checkPkgs(p, refS)
		for i, c := range ref {
			if len(c.errs) > 0 {
				harnessBug("the reference program does not compile: %v\n%s", c.errs, numbered(strings.Join(pkgSrcs(p, refS, i), "\n=====\n")))
			}
		}
		cl, refs := progFeatures(p)
		evCase(strings.Join(refS, "\n=====\n"), refs >= 2, cl...)
		got := renderProg(t, p)
		res := checkPkgs(p, got.srcs)
		for i, c := range res {
			if len(c.errs) > 0 {
				t.Fatalf("generated package %s does not compile: %s\n%s\n--- reference:\n%s", p.Pkgs[i].Path, strings.Join(c.errs, "\n"),
					numbered(strings.Join(pkgSrcs(p, got.srcs, i), "\n=====\n")), strings.Join(pkgSrcs(p, refS, i), "\n=====\n"))
			}
			for j, f := range c.files {
				if d := diffDump(dumpFile(ref[i], ref[i].files[j]), dumpFile(c, f)); d != "" {
					t.Fatalf("a reference in %s/%s resolves elsewhere (or the code differs): %s\n%s\n--- reference:\n%s", p.Pkgs[i].Path, p.Pkgs[i].Files[j].Name, d,
						numbered(pkgSrcs(p, got.srcs, i)[j]), pkgSrcs(p, refS, i)[j])
				}
			}
		}
	})
}

func pkgSrcs(p *Prog, srcs []string, i int) []string {
	k := 0
	for j := 0; j < i; j++ {
		k += len(p.Pkgs[j].Files)
	}
	return srcs[k : k+len(p.Pkgs[i].Files)]
}
