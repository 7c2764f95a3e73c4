package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

func paths(specs []g.ImportSpec) map[string]bool {
	m := map[string]bool{}
	for _, s := range specs {
		m[s.ImportPath] = true
	}
	return m
}

func setString(m map[string]bool) string {
	var k []string
	for p := range m {
		k = append(k, p)
	}
	sort.Strings(k)
	return strings.Join(k, " ")
}

// qualified is the reference: every qualifier replaced by the table's prefix.
func qualified(m *MT, own string, im *g.Imports) *MT {
	return m.MapSyms(func(s MSym) MSym {
		switch {
		case s.Path == "" && s.PkgName == "":
		case s.Path == own:
			s.PkgName = ""
		default:
			s.PkgName = strings.TrimSuffix(im.PrefixForPackage(s.Path), ".")
		}
		return s
	})
}

func foreign(m *MT, own string) map[string]bool {
	r := map[string]bool{}
	m.Syms(func(s MSym) {
		if !(s.Path == "" && s.PkgName == "") && s.Path != own {
			r[s.Path] = true
		}
	})
	return r
}

func TestC06(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		own := rPick(t, []string{ownPath, "ex.com/a/alpha", "", "verif/harness/pk/alpha"})
		pkgs := genPkgs(t, 1, 5, false)
		named := append(allNamed(pkgs), predeclaredNamed...)
		named = append(named, unsafePointerInfo)
		ownName := rPick(t, []string{"p", "alpha", ""})
		if own != "" {
			for _, ni := range ownNamed(ownName) {
				ni.Sym.Path = own
				named = append(named, ni)
			}
		}
		gen := &TGen{R: t, Named: named, AnyTag: true, BigLen: true, Unexp: true, Blank: 4, Depth: 4}
		im := g.NewImportsFor(own)
		registered := map[string]bool{}
		var hist []string
		for i := rPick(t, []int{0, 1, 2, 4}); i > 0; i-- {
			p := rPick(t, append(pkgs, &MPkg{Path: "other.example/zzz", Name: "alpha"}, &MPkg{Path: own, Name: "p"}))
			n := p.Name
			if rP(t, 5) {
				n = ""
			}
			hist = append(hist, p.Path+" as "+n)
			im.RegisterImport(p.Path, n)
			if p.Path != own {
				registered[p.Path] = true
			}
		}
		var items []*qItem
		for i := rPick(t, []int{1, 1, 2, 4, 8}); i > 0; i-- {
			it := &qItem{kind: rInt(t, 0, 2)}
			how := ""
			if j := rInt(t, 0, 3); len(items) > 0 && j > 0 {
				old := rPick(t, items)
				it.kind = old.kind
				switch {
				case j == 1:
					// one that looks like an earlier one but refers to other packages
					it.m, how = old.m.MapSyms(func(s MSym) MSym {
						var same []string
						for _, p := range append(pkgs, &MPkg{Path: own}) {
							if s.Path != "" && s.PkgName != "" && (p.Name == s.PkgName || s.Path == p.Path || p.Path == own) {
								same = append(same, p.Path)
							}
						}
						if len(same) > 0 {
							s.Path = rPick(t, same)
						}
						return s
					}), "look-alike"
				case j == 2 && it.kind == 1:
					// the same signature, which was extended
					m := *old.m
					a := MArg{"", gen.Type()}
					if len(m.Res) > 0 && m.Res[0].Name != "" {
						a.Name = "more"
					}
					m.Res = append(append([]MArg(nil), m.Res...), a)
					it.m, it.ext, how = &m, old, "extended signature"
				default:
					it.m, how = old.m, "same again"
				}
			} else if it.kind == 0 {
				it.m = gen.Type()
			} else if it.kind == 1 {
				it.m = gen.Sig(3)
			} else {
				it.m = gen.namedMT(rPick(t, named))
			}
			it.how = how
			items = append(items, it)
		}
		known := map[string]bool{}
		for p := range registered {
			known[p] = true
		}
		cl := map[string]bool{fmt.Sprintf("%d items", len(items)): true}
		desc, nt := fmt.Sprintf("own %q registered %q:", own, hist), false
		for _, it := range items {
			refs := foreign(it.m, own)
			all := true
			for p := range refs {
				all = all && known[p]
				known[p] = true
			}
			for _, c := range append(typeClasses(it.m), cond(all, "all-registered"), cond(len(refs) > 0, "foreign"), cond(len(refs) > 1, "several-packages"), it.how) {
				cl[c] = true
			}
			nt = nt || len(refs) > 0
			desc += fmt.Sprintf("\n%s kind %d %s", it.how, it.kind, it.m.CanonQ())
		}
		evCase(desc, nt, sortedKeys(cl)...)
		for _, it := range items {
			it.check(t, own, im, registered, hist)
			hist = append(hist, "qualified "+it.m.CanonQ())
			for p := range foreign(it.m, own) {
				registered[p] = true
			}
		}
	})
}

// qItem is something to qualify.
type qItem struct {
	kind int // type, signature, symbol
	m    *MT
	ext  *qItem // extends the signature of this one
	sig  *g.Signature
	how  string
}

func (it *qItem) check(t R, own string, im *g.Imports, registered map[string]bool, hist []string) {
	kind, m := it.kind, it.m
	refs := foreign(m, own)
	all := true
	for p := range refs {
		all = all && registered[p]
	}
	var desc = fmt.Sprintf("%s kind %d own %q registered %q: %s", it.how, kind, own, hist, m.CanonQ())
	before := m.CanonQ()

	// one qualification of the value, by the ensure or the plain variant
	var apply func(ensure bool) string
	var unchanged func() string
	switch kind {
	case 0:
		ty := m.G()
		apply = func(ensure bool) string {
			if ensure {
				return FromG(im.EnsureTypeImported(ty)).CanonQ()
			}
			return FromG(im.QualifyType(ty)).CanonQ()
		}
		unchanged = func() string { return FromG(ty).CanonQ() }
	case 1:
		sig := m.GSig()
		if it.ext != nil && it.ext.sig != nil {
			// the same signature as before
			r := m.Res[len(m.Res)-1]
			sig = it.ext.sig.AddResult(r.Name, r.T.G())
			it.ext.sig = nil
		}
		it.sig = sig
		apply = func(ensure bool) string {
			if ensure {
				return FromGSig(im.EnsureAllTypesImported(sig)).CanonQ()
			}
			return FromGSig(im.QualifySignature(sig)).CanonQ()
		}
		unchanged = func() string { return FromGSig(sig).CanonQ() }
	default:
		sym := m.Sym.G()
		conv := func(s g.Symbol) string { return (&MT{K: KNamed, Sym: symFromG(s)}).CanonQ() }
		apply = func(ensure bool) string {
			if ensure {
				return conv(im.EnsureImported(sym))
			}
			return conv(im.Qualify(sym))
		}
		unchanged = func() string { return conv(sym) }
	}
	check := func(what, got string) {
		if want := qualified(m, own, im).CanonQ(); got != want {
			t.Fatalf("%s of %s\ngives %s\nwant  %s\ntable %v", what, desc, got, want, im.ImportSpecs())
		}
		if u := unchanged(); u != before {
			t.Fatalf("%s changed its argument from %s to %s", what, before, u)
		}
	}
	// plain variant with whatever is registered so far
	specs := fmt.Sprint(im.ImportSpecs())
	var got string
	p, _, _ := caught(func() { got = apply(false) })
	if p == all {
		t.Fatalf("plain variant on %s: panicked %v with all packages registered %v", desc, p, all)
	}
	if s := fmt.Sprint(im.ImportSpecs()); s != specs {
		t.Fatalf("plain variant on %s changed the table from %s to %s", desc, specs, s)
	}
	if !p {
		check("plain variant", got)
	} else if u := unchanged(); u != before {
		t.Fatalf("plain variant changed its argument from %s to %s", before, u)
	}
	// ensure variant
	prefixes := map[string]string{}
	for r := range registered {
		prefixes[r] = im.PrefixForPackage(r)
	}
	mustNot(t, "ensure variant on "+desc, func() { got = apply(true) })
	want := map[string]bool{}
	for r := range registered {
		want[r] = true
	}
	for r := range refs {
		want[r] = true
	}
	if g, w := setString(paths(im.ImportSpecs())), setString(want); g != w {
		t.Fatalf("ensure variant on %s: registered packages are %s, want %s", desc, g, w)
	}
	for r, pre := range prefixes {
		if im.PrefixForPackage(r) != pre {
			t.Fatalf("ensure variant on %s changed the prefix of %s", desc, r)
		}
	}
	check("ensure variant", got)
	// again, both ways; nothing new may happen
	specs = fmt.Sprint(im.ImportSpecs())
	mustNot(t, "qualifying again: "+desc, func() {
		check("second ensure", apply(true))
		check("plain after ensure", apply(false))
		switch kind {
		case 0:
			q := im.EnsureTypeImported(m.G())
			check("ensure of the qualified type", FromG(im.EnsureTypeImported(q)).CanonQ())
			check("plain of the qualified type", FromG(im.QualifyType(q)).CanonQ())
		case 1:
			q := im.EnsureAllTypesImported(m.GSig())
			check("ensure of the qualified signature", FromGSig(im.EnsureAllTypesImported(q)).CanonQ())
			check("plain of the qualified signature", FromGSig(im.QualifySignature(q)).CanonQ())
		default:
			q := im.EnsureImported(m.Sym.G())
			check("ensure of the qualified symbol", (&MT{K: KNamed, Sym: symFromG(im.EnsureImported(q))}).CanonQ())
		}
	})
	if s := fmt.Sprint(im.ImportSpecs()); s != specs {
		t.Fatalf("qualifying %s again changed the table from %s to %s", desc, specs, s)
	}
}
