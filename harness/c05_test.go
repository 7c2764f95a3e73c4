package harness

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// legalQualifier: usable as the name in an import declaration and before a dot.
func legalQualifier(s string) bool { return isGoIdent(s) && s != "_" && s != "init" }

// refTable is what an import table must look like from the outside.
type refTable struct {
	own    string
	prefix map[string]string // path -> prefix without dot
	first  map[string]string // path -> name given when first registered
	given  map[string]map[string]bool
}

func newRefTable(own string) *refTable {
	return &refTable{own: own, prefix: map[string]string{}, first: map[string]string{}, given: map[string]map[string]bool{}}
}

func (r *refTable) has(path string) bool { _, ok := r.prefix[path]; return ok || path == r.own }

// registered checks the prefix (without dot) an operation reported for a path.
func (r *refTable) registered(path, name, prefix string) string {
	if path == r.own {
		if prefix != "" {
			return fmt.Sprintf("the own package %q got prefix %q", path, prefix)
		}
		return ""
	}
	if r.given[path] == nil {
		r.given[path] = map[string]bool{}
	}
	r.given[path][name] = true
	if old, ok := r.prefix[path]; ok {
		if old != prefix {
			return fmt.Sprintf("package %q had prefix %q and now has %q", path, old, prefix)
		}
		return ""
	}
	for p, o := range r.prefix {
		if o == prefix {
			return fmt.Sprintf("packages %q and %q share the prefix %q", p, path, prefix)
		}
	}
	if (name == "" || legalQualifier(name)) && !legalQualifier(prefix) {
		return fmt.Sprintf("package %q (name %q) got prefix %q, which is not a legal qualifier", path, name, prefix)
	}
	if name == "" && types.Universe.Lookup(prefix) != nil {
		return fmt.Sprintf("package %q, whose name is not known, got prefix %q, which hides a predeclared identifier", path, prefix)
	}
	r.prefix[path], r.first[path] = prefix, name
	return ""
}

// list checks the import list.
func (r *refTable) list(specs []g.ImportSpec) string {
	var paths []string
	for p := range r.prefix {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	var got []string
	for _, s := range specs {
		got = append(got, s.ImportPath)
	}
	if strings.Join(got, "\x00") != strings.Join(paths, "\x00") {
		return fmt.Sprintf("import list holds %q, want %q", got, paths)
	}
	for _, s := range specs {
		pre := r.prefix[s.ImportPath]
		if s.PackageAlias != "" && s.PackageAlias != pre {
			return fmt.Sprintf("%q is listed with alias %q but its prefix is %q", s.ImportPath, s.PackageAlias, pre)
		}
		if s.PackageAlias != "" && r.first[s.ImportPath] == pre {
			return fmt.Sprintf("%q is listed with alias %q though that is its real name", s.ImportPath, s.PackageAlias)
		}
		if s.PackageAlias == "" && !r.given[s.ImportPath][pre] {
			return fmt.Sprintf("%q is listed without alias though %q is not known to be its name (names given: %v)", s.ImportPath, pre, r.given[s.ImportPath])
		}
		want := fmt.Sprintf("%q", s.ImportPath)
		if s.PackageAlias != "" {
			want = s.PackageAlias + " " + want
		}
		if s.String() != want {
			return fmt.Sprintf("import spec prints as %s, want %s", s, want)
		}
	}
	return ""
}

type impPkg struct{ path, name string }

func c05Pkgs(t R, own string) []impPkg {
	var out []impPkg
	n := rInt(t, 2, 6)
	many := rP(t, 1)
	if many { // nearly all with the same name
		n = rInt(t, 10, 40)
	}
	for i := n; i > 0; i-- {
		var p impPkg
		if many {
			p = impPkg{fmt.Sprintf("ex.com/%d/alpha", i), "alpha"}
			if rP(t, 1) {
				p.name = fmt.Sprintf("alpha%d", rInt(t, 1, 30))
			} else if rP(t, 2) {
				p.name = ""
			}
			out = append(out, p)
			continue
		}
		switch rWeighted(t, 6, 2, 1, 2) {
		case 3:
			to := []string{"ex.com/a/alpha"}
			if own != "" {
				to = append(to, own)
			}
			for _, o := range out {
				if o.path != "" {
					to = append(to, o.path)
				}
			}
			p.path = relatedPath(t, rPick(t, to))
		case 0:
			p.path = rPick(t, pathDirs) + rPick(t, pathBases)
		case 1:
			p.path = rapid.StringMatching(`[a-z0-9._~+-]{1,6}(/[a-zA-Z0-9._~+-]{1,5}){0,2}`).Draw(t, "path")
		default:
			p.path = rapid.StringN(1, 8, -1).Draw(t, "path")
		}
		switch rWeighted(t, 8, 5, 1, 1) {
		case 0:
			p.name = rPick(t, realNames)
		case 1:
			p.name = ""
		case 2:
			p.name = rPick(t, []string{"string", "go-x", "9p", "type", "_", "init", "a b", "é"})
		default:
			p.name = "alpha" + rapid.StringMatching(`1{0,3}`).Draw(t, "ones")
		}
		out = append(out, p)
	}
	return out
}

func TestC05(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		own := rPick(t, []string{ownPath, "ex.com/a/alpha", "", "alpha"})
		pkgs := c05Pkgs(t, own)
		if rP(t, 6) {
			pkgs = append(pkgs, impPkg{own, rPick(t, []string{"", "p", "alpha"})})
		}
		var im *g.Imports
		if rP(t, 8) {
			im = g.NewImportsFor(own)
		} else {
			im = &g.NewGoFile("f.go", own, "p").Imports
		}
		ref := newRefTable(own)
		var hist []string
		conflict, queries := false, 0
		snapshot := func() string { return fmt.Sprint(im.ImportSpecs()) }
		n := rInt(t, 1, 24)
		if len(pkgs) > 9 {
			n = rInt(t, 10, 80)
		}
		for i := 0; i < n; i++ {
			p := rPick(t, pkgs)
			if p.path == "" && p.name == "" {
				p.name = "p"
			}
			op := rInt(t, 0, 9)
			sym := g.Symbol{Name: "T", Package: g.Package{ImportPath: p.path, Name: p.name}}
			hist = append(hist, fmt.Sprintf("%d(%q,%q)", op, p.path, p.name))
			bare := func(prefix string) string {
				if prefix != "" && !strings.HasSuffix(prefix, ".") {
					t.Fatalf("prefix %q does not end with a dot\nhistory: %s", prefix, hist)
				}
				return strings.TrimSuffix(prefix, ".")
			}
			var got string
			register := true
			run := func(f func()) {
				mustNot(t, fmt.Sprintf("history %s: last operation", hist), f)
			}
			switch op {
			case 0, 1:
				run(func() { got = bare(im.RegisterImport(p.path, p.name)) })
			case 2:
				run(func() { got = bare(im.RegisterImportForPackage(sym.Package)) })
			case 3:
				run(func() { got = im.EnsureImported(sym).Package.Name })
			case 4:
				run(func() { got = im.EnsureTypeImported(g.SliceType(g.NamedType(sym))).Elem().Symbol().Package.Name })
			case 5:
				run(func() {
					s := im.EnsureAllTypesImported(&g.Signature{Results: []g.ArgType{{Type: g.NamedType(sym)}}})
					got = s.Results[0].Type.Symbol().Package.Name
				})
			case 6:
				run(func() { got = im.QualifyTemplateData([]g.Symbol{sym}).([]g.Symbol)[0].Package.Name })
			default:
				register = false
				queries++
				before := snapshot()
				var pn bool
				pn, _, _ = caught(func() {
					switch op {
					case 7:
						got = bare(im.PrefixForPackage(p.path))
					case 8:
						got = im.Qualify(sym).Package.Name
					default:
						got = im.QualifyType(g.PointerType(g.NamedType(sym))).Elem().Symbol().Package.Name
					}
				})
				if pn == ref.has(p.path) {
					t.Fatalf("query for %q: panicked %v, registered %v\nhistory: %s", p.path, pn, ref.has(p.path), hist)
				}
				if after := snapshot(); after != before {
					t.Fatalf("a query changed the table from %s to %s\nhistory: %s", before, after, hist)
				}
				if !pn && got != ref.prefix[p.path] {
					t.Fatalf("query for %q answers %q, want %q\nhistory: %s", p.path, got, ref.prefix[p.path], hist)
				}
			}
			if register {
				if !ref.has(p.path) {
					for _, o := range ref.first {
						conflict = conflict || o == p.name
					}
				}
				if msg := ref.registered(p.path, p.name, got); msg != "" {
					t.Fatalf("%s\nhistory: %s", msg, hist)
				}
			}
			specs := im.ImportSpecs()
			if msg := ref.list(specs); msg != "" {
				t.Fatalf("%s\nhistory: %s", msg, hist)
			}
			for i := range specs {
				specs[i] = g.ImportSpec{PackageAlias: "junk", ImportPath: "junk"}
			}
			for path, pre := range ref.prefix {
				if got := im.PrefixForPackage(path); got != pre+"." {
					t.Fatalf("prefix of %q became %q, want %q\nhistory: %s", path, got, pre+".", hist)
				}
			}
			if got := im.PrefixForPackage(own); got != "" {
				t.Fatalf("prefix of the own package is %q\nhistory: %s", got, hist)
			}
		}
		evCase(fmt.Sprintf("own %q: %s", own, strings.Join(hist, " ")), len(ref.prefix) >= 2, cond(conflict, "same-name-registered-twice"),
			cond(queries > 0, "has-queries"), fmt.Sprintf("packages:%d", len(ref.prefix)))
	})
}
