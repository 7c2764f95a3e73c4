package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// canonicalOf gives the comment on the line of the package clause.
func packageLine(src string) string {
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "package ") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func shape(f *FileM) (classes []string, nontrivial bool) {
	specs := 0
	for _, e := range f.Elems {
		classes = append(classes, []string{"const", "var", "type", "func"}[e.Kind])
		for i, v := range e.Vals {
			specs++
			if len(v.Names) > 1 {
				classes = append(classes, "multi-name spec")
			}
			if e.Kind == EConst && v.Init == nil {
				classes = append(classes, "implicit repetition")
			}
			if v.Type != nil && v.Init != nil {
				classes = append(classes, "type and initialiser")
			}
			if v.Type != nil && v.Type.Anon != nil {
				classes = append(classes, "type element inline")
			}
			if i > 0 {
				classes = append(classes, "value group")
			}
		}
		for i, t := range e.Types {
			specs++
			classes = append(classes, "body "+[]string{"type", "struct", "interface", "element"}[t.Body])
			if t.Alias {
				classes = append(classes, "alias")
			}
			if i > 0 {
				classes = append(classes, "type group")
			}
		}
		if e.Fn != nil {
			specs++
			if e.Fn.Recv != nil {
				classes = append(classes, fmt.Sprintf("receiver route %d ptr %v", e.Fn.Recv.How, e.Fn.Recv.Ptr))
			}
			if e.Fn.Sig.Var {
				classes = append(classes, "variadic function")
			}
		}
	}
	if f.Canonical != "" {
		classes = append(classes, "canonical import path")
	}
	return classes, specs >= 2
}

func TestC08(t *testing.T) {
	rapid.Check(t, func(t R) {
		p := genProg(t, ProgOpts{Comments: 2, MaxPkgs: 2, MaxFiles: 2, MaxElems: 8, UnusedRegs: true})
		var got *progResult
		refS := refSrcs(p, false)
		var cl []string
		nt := false
		for _, f := range p.AllFiles() {
			c, n := shape(f)
			cl = append(cl, c...)
			nt = nt || n
		}
		evCase(strings.Join(refS, "\n=====\n"), nt, cl...)
		got = renderProg(t, p)
		for i, f := range p.AllFiles() {
			pk := p.pkgOf(f)
			_, rf, err := parseSrc(refS[i])
			if err != nil {
				harnessBug("reference does not parse: %v\n%s", err, refS[i])
			}
			_, gf, err := parseSrc(got.srcs[i])
			if err != nil {
				t.Fatalf("rendered file does not parse: %v\n%s", err, numbered(got.srcs[i]))
			}
			want := "package " + pk.Name
			if f.Canonical != "" {
				want += fmt.Sprintf(" // import %q", f.Canonical)
			}
			if l := packageLine(got.srcs[i]); l != want {
				t.Fatalf("package clause is %q, want %q\n%s", l, want, got.srcs[i])
			}
			if d := diffDump(dumpBlind(rf, pk.declared()), dumpBlind(gf, pk.declared())); d != "" {
				t.Fatalf("%s declares something else: %s\n%s\n--- reference:\n%s", f.Name, d, numbered(got.srcs[i]), refS[i])
			}
		}
	})
}
