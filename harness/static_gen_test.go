package harness

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

var staticQuals = func() map[string]string {
	m := map[string]string{"unsafe": "unsafe."}
	for i, c := range catalogue {
		m[c.Path] = fmt.Sprintf("k%d.", i)
	}
	return m
}()

// TestGenStatic rewrites static_test.go: a table of compiled unnamed types and
// their source. Run with VERIF_GEN_STATIC=1.
func TestGenStatic(t *testing.T) {
	if os.Getenv("VERIF_GEN_STATIC") == "" {
		t.Skip()
	}
	gen := rapid.Custom(func(t *rapid.T) *MT {
		var named []NamedInfo
		for _, c := range catalogue {
			p := c.MPkg
			named = append(named, uniformNamed(&p)...)
		}
		g := &TGen{R: t, Named: append(append(named, predeclaredNamed...), unsafePointerInfo), AnyTag: true, Unexp: true, Depth: 3}
		var m *MT
		if rP(t, 7) {
			m = g.Struct(2, false)
		} else {
			m = g.Iface(2)
		}
		return m
	})
	var b strings.Builder
	b.WriteString("// Code generated by TestGenStatic. DO NOT EDIT.\n\npackage harness\n\nimport (\n\t\"reflect\"\n\t\"unsafe\"\n\n")
	for i, c := range catalogue {
		fmt.Fprintf(&b, "\tk%d %q\n", i, c.Path)
	}
	b.WriteString(")\n\nvar _ unsafe.Pointer\n\n")
	for i := range catalogue {
		fmt.Fprintf(&b, "var _ k%d.T0\n", i)
	}
	b.WriteString("\ntype staticType struct {\n\trt reflect.Type\n\tsrc string\n}\n\nvar staticTypes = []staticType{\n")
	seen := map[string]bool{}
	for i := 0; len(seen) < 200; i++ {
		m := gen.Example(i)
		src := m.Src(func(p string) string { return staticQuals[p] })
		if seen[src] || len(src) > 1500 || m.Depth() < 2 && len(seen) > 20 {
			continue
		}
		seen[src] = true
		fmt.Fprintf(&b, "\t{reflect.TypeOf((*%s)(nil)).Elem(), %q},\n", src, src)
	}
	b.WriteString("}\n")
	if err := os.WriteFile("static_test.go", []byte(b.String()), 0o644); err != nil {
		t.Fatal(err)
	}
}
