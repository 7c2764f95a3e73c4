package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	g "github.com/jhump/gopoet"
)

// slot puts a value where template data is found: in an interface.
func slot(v reflect.Value) reflect.Value {
	var x any
	if v.IsValid() {
		x = v.Interface()
	}
	return reflect.ValueOf(&x).Elem()
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// dataTable is the import table after an operation: local names by path.
func dataTable(t failer, im *g.Imports) map[string]string {
	r := map[string]string{}
	for _, s := range im.ImportSpecs() {
		p := im.PrefixForPackage(s.ImportPath)
		if !strings.HasSuffix(p, ".") || s.PackageAlias != "" && s.PackageAlias+"." != p {
			t.Fatalf("package %s has prefix %q and alias %q", s.ImportPath, p, s.PackageAlias)
		}
		r[s.ImportPath] = strings.TrimSuffix(p, ".")
	}
	return r
}

func (c *DCase) desc() string {
	b, err := json.Marshal(c)
	if err != nil {
		harnessBug("%v", err)
	}
	return string(b)
}

// checkQualified applies QualifyTemplateData to the case's value and compares
// with what it must become.
func checkQualified(t failer, c *DCase, pure bool) {
	e := newDEnv(c)
	in := e.build(c.T, c.V)
	im := g.NewImportsFor(c.Own.Path)
	pre := map[string]bool{}
	for _, r := range c.Pre {
		im.RegisterImportForPackage(g.Package{Name: r.Name, ImportPath: r.Path})
		if r.Path != c.Own.Path {
			pre[r.Path] = true
		}
	}
	checkQualifiedNow(t, c, pure, in, im, pre)
	for _, m := range c.Mods {
		l, ok := e.locs[m.Loc]
		if !ok {
			continue
		}
		l.Set(reflect.Zero(l.Type()))
		e.set(l, m.T, m.V)
		for p := range dataTable(t, im) {
			pre[p] = true
		}
		checkQualifiedNow(t, c, pure, in, im, pre)
	}
}

// checkQualifiedNow does so for the value in its present state.
func checkQualifiedNow(t failer, c *DCase, pure bool, in reflect.Value, im *g.Imports, pre map[string]bool) {
	before := (&describer{own: c.Own.Path}).describe(slot(in))
	arg := in.Interface()
	var out any
	mustNot(t, "QualifyTemplateData", func() { out = im.QualifyTemplateData(arg) })
	after := (&describer{own: c.Own.Path}).describe(slot(reflect.ValueOf(&arg).Elem().Elem()))
	if before != after {
		t.Fatalf("the argument was modified\nbefore %s\nafter  %s", before, after)
	}
	tab := dataTable(t, im)
	need, extra := map[string]bool{}, map[string]bool{}
	want := (&describer{own: c.Own.Path, tab: tab, paths: need, extra: extra, purego: pure}).describe(slot(in))
	for _, p := range sortedKeys(need) {
		if _, ok := tab[p]; !ok {
			t.Fatalf("%s is referred to but not imported; imports are %v\nof %s", p, tab, before)
		}
	}
	for _, p := range sortedKeys(tab) {
		if !need[p] && !extra[p] && !pre[p] {
			t.Fatalf("%s is imported but nothing refers to it\n%s", p, before)
		}
	}
	got := (&describer{own: c.Own.Path}).describe(slot(reflect.ValueOf(&out).Elem().Elem()))
	if got != want {
		t.Fatalf("rebuilt value differs (imports %v)\ninput %s\ngot   %s\nwant  %s", tab, before, got, want)
	}
	if in.Kind() != reflect.Interface && reflect.TypeOf(out) != in.Type() {
		if _, ok := (&describer{}).converted(arg); !ok {
			t.Fatalf("a %v was rebuilt as %T", in.Type(), out)
		}
	}
	// again: nothing changes
	specs := fmt.Sprint(im.ImportSpecs())
	var out2 any
	mustNot(t, "QualifyTemplateData on its own result", func() { out2 = im.QualifyTemplateData(out) })
	if s := fmt.Sprint(im.ImportSpecs()); s != specs {
		t.Fatalf("repeating the operation changes the imports from %s to %s", specs, s)
	}
	if again := (&describer{own: c.Own.Path}).describe(slot(reflect.ValueOf(&out2).Elem().Elem())); again != got {
		t.Fatalf("repeating the operation changes the value\nfirst  %s\nsecond %s", got, again)
	}
	if now := (&describer{own: c.Own.Path}).describe(slot(reflect.ValueOf(&arg).Elem().Elem())); now != before {
		t.Fatalf("the argument was modified\nbefore %s\nafter  %s", before, now)
	}
}
