package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func TestC21(t *testing.T) {
	rapid.Check(t, func(t R) {
		p := genProg(t, ProgOpts{MaxPkgs: 2, MaxFiles: 2, MaxElems: 5, UnusedRegs: true})
		files := p.AllFiles()
		var desc []string
		maxN, cl := 0, []string{}
		type expect struct {
			paths          map[string]bool
			known, unknown map[string]bool
		}
		exps := make([]expect, len(files))
		for i, f := range files {
			src, used := printRef(p, f, false)
			x := expect{used, map[string]bool{}, map[string]bool{}}
			for _, r := range f.Regs {
				if !used[r.Path] {
					cl = append(cl, "registered but not used")
				}
				x.paths[r.Path] = true
			}
			mention := func(path, name string) {
				if name == "" {
					x.unknown[path] = true
				} else {
					x.known[path] = true
				}
			}
			for _, r := range f.Regs {
				mention(r.Path, r.Name)
			}
			p.eachMention(f, mention)
			own := p.pkgOf(f).Path
			for path := range x.known {
				if path != own && !x.paths[path] {
					harnessBug("%s mentioned but not used", path)
				}
			}
			if x.known[own] || x.unknown[own] {
				cl = append(cl, "own package referred to")
			}
			if x.paths[own] {
				harnessBug("own path among the expected imports")
			}
			exps[i] = x
			desc = append(desc, fmt.Sprintf("registered %v\n%s", f.Regs, src))
			if len(x.paths) > maxN {
				maxN = len(x.paths)
			}
		}
		cl = append(cl, fmt.Sprintf("most imports in a file: %d", maxN))
		evCase(strings.Join(desc, "\n=====\n"), maxN >= 2, cl...)
		got := renderProg(t, p)
		for i, f := range files {
			src := got.srcs[i]
			_, gf, err := parseSrc(src)
			if err != nil {
				t.Fatalf("rendered file does not parse: %v\n%s", err, numbered(src))
			}
			real := got.b.real
			var paths []string
			locals := map[string]string{}
			for _, is := range gf.Imports {
				path, err := strconv.Unquote(is.Path.Value)
				if err != nil {
					t.Fatalf("bad import path %s", is.Path.Value)
				}
				paths = append(paths, path)
				local := real[path]
				x := exps[i]
				if is.Name == nil {
					if !x.known[path] {
						t.Fatalf("%s is imported without an alias although its package name was never given\n%s", path, numbered(src))
					}
				} else {
					local = is.Name.Name
					if local == real[path] && !x.unknown[path] {
						t.Fatalf("%s is imported with the alias %s, which is known to be its real name\n%s", path, local, numbered(src))
					}
					if local == "_" || local == "." {
						t.Fatalf("%s is imported as %s", path, local)
					}
				}
				if o, dup := locals[local]; dup {
					t.Fatalf("%s and %s are both imported as %s\n%s", o, path, local, numbered(src))
				}
				locals[local] = path
			}
			var want []string
			for path := range exps[i].paths {
				want = append(want, path)
			}
			sort.Strings(want)
			if !equalStrings(want, paths) {
				t.Fatalf("file %s of %s imports\n  %q\nwant\n  %q\n%s", f.Name, p.pkgOf(f).Path, paths, want, numbered(src))
			}
		}
	})
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
