package harness

import (
	"go/scanner"
	"go/token"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// tokens reads Go tokens, leaving out what formatting may change.
func tokens(s string) []string {
	var r []string
	var sc scanner.Scanner
	fset := token.NewFileSet()
	sc.Init(fset.AddFile("", fset.Base(), len(s)), []byte(s), func(pos token.Position, msg string) { r = append(r, "ERROR "+msg) }, 0)
	for {
		_, tok, lit := sc.Scan()
		if tok == token.EOF {
			break
		}
		switch {
		case tok == token.SEMICOLON:
			lit = ";"
		case tok == token.STRING:
			if u, err := strconv.Unquote(lit); err == nil {
				lit = "string " + strconv.Quote(u)
			}
		case tok == token.IDENT:
			switch lit {
			case "uint8":
				lit = "byte"
			case "int32":
				lit = "rune"
			}
		default:
			if lit == "" {
				lit = tok.String()
			}
		}
		if lit == "}" && len(r) > 0 && r[len(r)-1] == ";" {
			r = r[:len(r)-1]
		}
		r = append(r, lit)
	}
	for len(r) > 0 && r[len(r)-1] == ";" {
		r = r[:len(r)-1]
	}
	return r
}

var universeObjs = []string{"int", "error", "byte", "rune", "any", "true", "iota", "nil", "len", "panic", "string", "complex128", "comparable", "min"}

func TestC11(t *testing.T) {
	rapid.Check(t, func(t R) {
		gn := genProgG(t, ProgOpts{MaxPkgs: 2, MaxFiles: 1, MaxElems: 4})
		p := gn.p
		gn.pkg = len(p.Pkgs) - 1
		if rP(t, 6) {
			// seen from a package of its own
			p.Pkgs = append(p.Pkgs, &PkgM{Path: "ex.com/zz/probe", Name: rPick(t, realNames)})
			gn.pkg++
			gn.real["ex.com/zz/probe"] = p.Pkgs[gn.pkg].Name
		}
		pk := p.Pkgs[gn.pkg]
		f := &FileM{Name: "probe.go", Pkg: gn.pkg, Idx: len(pk.Files)}
		pk.Files = append(pk.Files, f)
		gn.f = f
		body := &CodeM{}
		n := rSize(t, 25, 1, 2, 3, 4, 5, 6, 7, 8)
		type probe struct {
			ps    []Piece
			templ bool
			desc  string
		}
		var probes []probe
		var cl []string
		var last *target
		for i := 0; i < n; i++ {
			var ps []Piece
			switch rWeighted(t, 6, 3, 3, 1, 1) {
			case 0:
				ts := gn.visible(func(*target) bool { return true })
				if last != nil && rP(t, 4) {
					// one that reads like the last one did
					if same := gn.visible(func(x *target) bool {
						return x.sym.Name == last.sym.Name && x.sym.PkgName == last.sym.PkgName && x.sym.Path != last.sym.Path
					}); len(same) > 0 {
						ts = same
						cl = append(cl, "same text, other package")
					}
				}
				last = gn.pick(ts)
				ps = gn.ref(last)
			case 1:
				ps = gn.methodExpr()
				if x := gn.fieldExpr(); x != nil && (ps == nil || rP(t, 5)) {
					ps = x
				}
			case 2:
				ps = []Piece{gn.anyTypePiece(3)}
			case 4: // the file's own package has no name here
				ps = []Piece{{Ref: &RefM{Form: rPick(t, []int{FPackage, FPackagePtr, FGoPackage, FPrefix}), Sym: MSym{Path: pk.Path, PkgName: pk.Name}, Real: pk.Name}, Verb: gn.verb()}}
			default:
				ps = []Piece{{Ref: &RefM{Form: FGoObject, Sym: MSym{Name: rPick(t, universeObjs)}}, Verb: "%s"}}
			}
			if len(ps) == 0 {
				continue
			}
			op := &COp{Kind: OpPrintf, Shape: rInt(t, 0, 3)}
			op.Pieces = append(op.Pieces, Piece{Lit: mark(i, false)})
			op.Pieces = append(op.Pieces, ps...)
			op.Pieces = append(op.Pieces, Piece{Lit: mark(i, true)})
			templ := rP(t, 5) && templOK(op)
			if templ {
				op.Kind = OpTemplate
			} else if rP(t, 3) {
				op.Kind = OpPrintlnf
			}
			pr := probe{ps: ps, templ: templ}
			for _, x := range ps {
				if x.Ref == nil {
					pr.desc += x.Lit
					continue
				}
				s := formNames[x.Ref.Form]
				switch {
				case x.Ref.Form == FMethodSpec || x.Ref.Form == FIfaceMethod || x.Ref.Form == FFieldSpec:
				case x.Ref.T != nil:
				case x.Ref.Sym.Path == "":
					s += " universe"
				case x.Ref.Sym.Path == pk.Path:
					s += " own"
				default:
					s += " foreign"
				}
				if templ {
					s += " (template)"
				}
				cl = append(cl, s)
				pr.desc += "<" + formNames[x.Ref.Form] + " " + x.Ref.text(func(p string) string { return strconv.Quote(p) + "." }) + ">"
			}
			probes = append(probes, pr)
			if k := len(body.Ops); k > 0 && !templ && body.Ops[k-1].Kind == OpPrintf && rP(t, 6) {
				// more than one in the same call
				body.Ops[k-1].Pieces = append(body.Ops[k-1].Pieces, op.Pieces...)
				cl = append(cl, "several in one call")
				continue
			}
			body.Ops = append(body.Ops, op)
		}
		f.Elems = []*ElemM{{Kind: EFunc, Fn: &FnM{ID: gn.nid(), Name: "zzProbe", Sig: &MT{K: KFunc}, Body: body}}}
		p.Order = append(p.Order, len(p.Order))
		var desc []string
		for _, pr := range probes {
			desc = append(desc, pr.desc)
		}
		evCase(pk.Path+": "+strings.Join(desc, " | "), len(probes) > 0, cl...)
		var b *builder
		mustNot(t, "building the model", func() { b = build(p) })
		_, used := printRef(p, f, false)
		src := renderBroken(t, b.files[len(b.files)-1])
		tab := importTable(t, src, b.real)
		q := tableQualifier(pk.Path, tab)
		for path := range tab {
			if !used[path] {
				t.Fatalf("%s is imported but nothing refers to it (references: %s)\n%s", path, strings.Join(desc, " | "), numbered(src))
			}
		}
		for path := range used {
			if _, ok := tab[path]; !ok {
				t.Fatalf("%s is not imported (references: %s)\n%s", path, strings.Join(desc, " | "), numbered(src))
			}
		}
		k := 0
		for i := 0; i < n; i++ {
			if !strings.Contains(src, mark(i, false)) {
				continue
			}
			text := between(t, src, i)
			want := ""
			plain := true
			for _, x := range probes[k].ps {
				if x.Ref == nil {
					want += x.Lit
				} else {
					want += x.Ref.text(q)
					plain = plain && x.Ref.T == nil
				}
			}
			if plain && text != want || !plain && !equalStrings(tokens(text), tokens(want)) {
				t.Fatalf("reference %s renders as %q, want %q\n%s", probes[k].desc, text, want, numbered(src))
			}
			k++
		}
		if k != len(probes) {
			t.Fatalf("%d of %d references were rendered\n%s", k, len(probes), numbered(src))
		}
	})
}
