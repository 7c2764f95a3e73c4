package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// derived describes everything the model objects answer.
func (b *builder) derived() []string {
	var out []string
	add := func(what string, id int, f func() string) {
		s := ""
		if p, v, _ := caught(func() { s = f() }); p {
			s = fmt.Sprintf("panic: %v", v)
		}
		out = append(out, fmt.Sprintf("%s %d: %s", what, id, s))
	}
	spec := func(t g.TypeNameOrSpec) string {
		switch t := t.(type) {
		case nil:
			return "none"
		case *g.TypeSpec:
			return fmt.Sprintf("%p %s", t, t.String())
		case g.TypeName:
			return FromG(t).CanonQ()
		}
		return "?"
	}
	syms := func(n int, at func(int) g.Symbol) string {
		s := ""
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("%#v ", at(i))
		}
		return s
	}
	for _, id := range sortedInts(b.consts) {
		c := b.consts[id]
		add("const", id, func() string {
			return fmt.Sprintf("%q %q %s %s", c.Names, c.Comment, c.String(), spec(c.Type)) + syms(len(c.Names), c.SymbolAt)
		})
	}
	for _, id := range sortedInts(b.vars) {
		c := b.vars[id]
		add("var", id, func() string {
			return fmt.Sprintf("%q %q %s %s", c.Names, c.Comment, c.String(), spec(c.Type)) + syms(len(c.Names), c.SymbolAt)
		})
	}
	for _, id := range sortedInts(b.types) {
		c := b.types[id]
		add("type", id, func() string {
			return fmt.Sprintf("%q %q %s %v %s %s %#v", c.Name, c.Comment, c.String(), c.IsAlias(), FromG(c.Underlying()).CanonQ(), FromG(c.ToTypeName()).CanonQ(), c.ToSymbol())
		})
	}
	for _, id := range sortedInts(b.funcs) {
		c := b.funcs[id]
		add("func", id, func() string {
			return fmt.Sprintf("%q %q %s %s %s %#v %#v", c.Name, c.Comment, c.String(), FromGSig(&c.Signature).CanonQ(), FromG(c.ToTypeName()).CanonQ(), c.ToSymbol(), c.Receiver)
		})
	}
	for _, id := range sortedInts(b.imethods) {
		c := b.imethods[id]
		add("interface method", id, func() string {
			return fmt.Sprintf("%q %q %s %s %s %#v", c.Name, c.Comment, c.String(), FromGSig(&c.Signature).CanonQ(), FromG(c.ToTypeName()).CanonQ(), c.ToMethodRef())
		})
	}
	for i, f := range b.files {
		add("file", i, func() string {
			s := fmt.Sprintf("%q %q %q %q %q %#v", f.Name, f.FileComment, f.PackageComment, f.PackageName, f.CanonicalImportPath, f.Package())
			for k := 0; k < f.NumElements(); k++ {
				s += fmt.Sprintf(" %p", f.ElementAt(k))
			}
			return s
		})
	}
	for i := range b.args {
		add("argument", i, func() string { return (&describer{own: "-"}).describe(slot(reflect.ValueOf(&b.args[i]).Elem().Elem())) })
	}
	return out
}

func sortedInts[T any](m map[int]T) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// shareParts makes parts of the program occur again elsewhere. It tells
// whether whole elements do.
func shareParts(t R, p *Prog) (shares []string, elems bool) {
	type part struct {
		at   int
		elem *ElemM // that uses the part
		kind string
		self *ElemM
	}
	files := p.AllFiles()
	noPrefix := func(c *CodeM) bool {
		ok := c != nil && len(c.Ops) > 0
		if c != nil {
			c.eachOp(func(op *COp) {
				for _, x := range op.Pieces {
					if x.Ref != nil && x.Ref.Form == FPrefix {
						ok = false
					}
				}
			})
		}
		return ok
	}
	var parts []part
	n := 0
	name := func() string { n++; return fmt.Sprintf("ZZ%d", n) }
	for i, f := range files {
		tref := func(r *TRef) {
			if r != nil {
				parts = append(parts, part{i, &ElemM{Kind: EVar, Vals: []*ValM{{ID: 100000 + len(parts), Names: []string{name()}, Type: r}}}, "type in a variable", nil})
				parts = append(parts, part{i, &ElemM{Kind: EType, Types: []*TypeM{{ID: 100000 + len(parts), Name: name(), Body: BodyStruct, Fields: []*FieldM{{Name: "ZF", Type: r}}}}}, "type in a field", nil})
			}
		}
		for _, e := range f.Elems {
			e := e
			ok := true
			for _, v := range e.Vals {
				tref(v.Type)
				if v.Init != nil {
					if noPrefix(v.Init) {
						parts = append(parts, part{i, &ElemM{Kind: e.Kind, Vals: []*ValM{{ID: 100000 + len(parts), Names: []string{name()}, Init: v.Init}}}, "initialiser", nil})
					} else {
						ok = false
					}
				}
			}
			for _, ty := range e.Types {
				tref(ty.Ref)
				for _, fd := range ty.Fields {
					tref(fd.Type)
				}
				switch {
				case ty.Body == BodyType && ty.T != nil:
					tref(&TRef{T: ty.T})
				case len(ty.Fields) > 0:
					parts = append(parts, part{i, &ElemM{Kind: EType, Types: []*TypeM{{ID: 100000 + len(parts), Name: name(), Body: BodyStruct, Fields: ty.Fields}}}, "fields", nil})
				case len(ty.Elems) > 0:
					parts = append(parts, part{i, &ElemM{Kind: EType, Types: []*TypeM{{ID: 100000 + len(parts), Name: name(), Body: BodyIface, Elems: ty.Elems}}}, "interface elements", nil})
				}
			}
			if e.Fn != nil {
				if noPrefix(e.Fn.Body) {
					parts = append(parts, part{i, &ElemM{Kind: EFunc, Fn: &FnM{ID: 100000 + len(parts), Name: name(), Sig: e.Fn.Sig, Route: 2, Body: &CodeM{Ops: []*COp{{Kind: OpAddCode, Sub: e.Fn.Body}}}}}, "code block and signature", nil})
					parts = append(parts, part{i, &ElemM{Kind: EFunc, Fn: &FnM{ID: 100000 + len(parts), Name: name(), Sig: e.Fn.Sig, Body: e.Fn.Body}}, "arguments of code", nil})
				} else {
					ok = false
				}
			}
			if ok {
				parts = append(parts, part{i, nil, "element", e})
			}
		}
	}
	if len(parts) == 0 {
		return nil, false
	}
	for k := rInt(t, 1, 5); k > 0; k-- {
		x := rPick(t, parts)
		f := files[rInt(t, x.at, len(files)-1)]
		e := x.elem
		if e == nil {
			e = x.self
			elems = true
		}
		dup := false
		for _, o := range f.Elems {
			dup = dup || o == e
		}
		if dup {
			continue
		}
		where := " in the same file"
		if f != files[x.at] {
			where = " in another file"
		}
		shares = append(shares, x.kind+where)
		f.Elems = append(f.Elems, e)
	}
	return shares, elems
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

type badWriter struct{ n int }

func (w *badWriter) Write(b []byte) (int, error) { return w.n, errors.New("no space") }

func TestC14(t *testing.T) {
	rapid.Check(t, func(t R) {
		p := genProg(t, ProgOpts{MaxPkgs: 2, MaxFiles: 2, MaxElems: 4, UnusedRegs: true})
		shares, elems := shareParts(t, p)
		files := p.AllFiles()
		n := len(files)
		type step struct {
			kind int
			fs   []int
		}
		var hist []step
		var hdesc []string
		for k := rInt(t, 2, 7); k > 0; k-- {
			s := step{kind: rWeighted(t, 6, 1, 2)}
			s.fs = []int{rInt(t, 0, n-1)}
			if s.kind == 2 {
				for j := rInt(t, 0, 2); j > 0; j-- {
					s.fs = append(s.fs, rInt(t, 0, n-1))
				}
			}
			hist = append(hist, s)
			hdesc = append(hdesc, fmt.Sprintf("%s %v", []string{"render", "fail writing", "write several"}[s.kind], s.fs))
		}
		prefixes := false
		for _, f := range files {
			f.eachCode(func(c *CodeM) {
				c.eachOp(func(op *COp) {
					for _, x := range op.Pieces {
						// asking for a prefix registers the package at that moment
						prefixes = prefixes || x.Ref != nil && x.Ref.Form == FPrefix
					}
				})
			})
		}
		pauses := make([]bool, rInt(t, 1, 7))
		for i := range pauses {
			pauses[i] = rP(t, 8)
		}
		changes := append([]bool(nil), pauses...)
		late := MSym{"late.example/x/late", rPick(t, []string{"late", "alpha", ""}), "L"}
		evCase(strings.Join(shares, ", ")+"\n"+strings.Join(hdesc, ", ")+"\n"+strings.Join(refSrcs(p, false), "\n=====\n"), len(shares) > 0, append(shares, fmt.Sprintf("history of %d", len(hist)))...)
		// each file rendered as the first thing that happens to its model
		fresh := make([]string, n)
		for i := range fresh {
			var b *builder
			mustNot(t, "building the model", func() { b = buildWith(p, true) })
			fresh[i] = mustRender(t, b.files[i], "file of a fresh model")
			if !elems {
				mustNot(t, "building the model", func() { b = buildWith(p, false) })
				if s := mustRender(t, b.files[i], "file of a fresh model"); s != fresh[i] {
					t.Fatalf("file %d renders differently when parts of the model are shared (%v)\n--- not shared\n%s\n--- shared\n%s", i, shares, s, fresh[i])
				}
			}
		}
		var b *builder
		mustNot(t, "building the model", func() { b = buildWith(p, true) })
		before := b.derived()
		check := func(i int, got string) {
			if got != fresh[i] {
				t.Fatalf("file %d renders differently after %v\n--- fresh\n%s\n--- now\n%s", i, hdesc, fresh[i], got)
			}
		}
		for _, s := range hist {
			switch s.kind {
			case 0:
				check(s.fs[0], mustRender(t, b.files[s.fs[0]], "a file again"))
			case 1:
				mustNot(t, "rendering", func() {
					if err := g.WriteGoFile(&badWriter{}, b.files[s.fs[0]]); err == nil {
						t.Fatalf("a failing writer was not reported")
					}
				})
			case 2:
				var fs []*g.GoFile
				for _, i := range s.fs {
					fs = append(fs, b.files[i])
				}
				var outs []*bytes.Buffer
				mustNot(t, "WriteGoFiles", func() {
					err := g.WriteGoFiles(func(string) (io.WriteCloser, error) {
						w := &bytes.Buffer{}
						outs = append(outs, w)
						return nopCloser{w}, nil
					}, fs...)
					if err != nil {
						t.Fatalf("WriteGoFiles: %v", err)
					}
				})
				for k, i := range s.fs {
					check(i, outs[k].String())
				}
			}
		}
		if after := b.derived(); !equalStrings(before, after) {
			t.Fatalf("model objects answer differently after rendering (%v)\n%s", hdesc, firstDiff(before, after))
		}
		for i := range fresh {
			check(i, mustRender(t, b.files[i], "a file at the end"))
		}
		if prefixes {
			return
		}
		// renderings while the model is under construction leave no trace (but an
		// element that is added to another file belongs to another package)
		var g2 *builder
		if elems {
			pauses = []bool{false}
		}
		mustNot(t, "building and rendering in turns", func() {
			k := 0
			g2 = buildPausing(p, true, func(b *builder) {
				if pauses[k%len(pauses)] {
					for i := range b.files {
						render(b.files[i]) // could be incomplete
					}
				}
				k++
			})
		})
		for i := range fresh {
			check(i, mustRender(t, g2.files[i], "a file that was rendered while under construction"))
		}
		// later changes have the effect they would have had before
		var b2 *builder
		mustNot(t, "building the model", func() { b2 = buildWith(p, true) })
		b2.change(changes, late)
		b.change(changes, late)
		if was, now := b2.derived(), b.derived(); !equalStrings(noAddrs(was), noAddrs(now)) {
			t.Fatalf("model objects answer differently when changed after rendering\n%s", firstDiff(noAddrs(was), noAddrs(now)))
		}
		for i := range fresh {
			want, werr := render(b2.files[i])
			got, gerr := render(b.files[i])
			if got != want || fmt.Sprint(gerr) != fmt.Sprint(werr) {
				t.Fatalf("file %d differs when the model is changed after it was rendered\n--- changed before it was rendered: %v\n%s\n--- changed after: %v\n%s", i, werr, want, gerr, got)
			}
		}
	})
}

var addrRE = regexp.MustCompile(`0x[0-9a-f]+`)

func noAddrs(ss []string) []string {
	r := make([]string, len(ss))
	for i, s := range ss {
		r[i] = addrRE.ReplaceAllString(s, "@")
	}
	return r
}

// change changes names, comments and tags all over the model, where pick says
// so, and adds an element to each file. No package is referred to any more or
// any less by what was there.
func (b *builder) change(pick []bool, late MSym) {
	k := 0
	yes := func() bool { k++; return pick[k%len(pick)] }
	str := func(s *string, add string) {
		if yes() && *s != "" {
			*s += add
		}
	}
	for _, id := range sortedInts(b.consts) {
		c := b.consts[id]
		str(&c.Comment, " changed")
		for i := range c.Names {
			str(&c.Names[i], "Zz")
		}
	}
	for _, id := range sortedInts(b.vars) {
		c := b.vars[id]
		str(&c.Comment, " changed")
		for i := range c.Names {
			str(&c.Names[i], "Zz")
		}
	}
	for _, id := range sortedInts(b.types) {
		c := b.types[id]
		str(&c.Comment, " changed")
		str(&c.Name, "Zz")
	}
	for _, id := range sortedInts(b.imethods) {
		c := b.imethods[id]
		str(&c.Comment, " changed")
		str(&c.Name, "Zz")
	}
	for _, id := range sortedInts(b.funcs) {
		c := b.funcs[id]
		str(&c.Comment, " changed")
		str(&c.Name, "Zz")
		if yes() {
			c.Println("_ = 1234")
		}
	}
	var fks [][2]int
	for fk := range b.fields {
		fks = append(fks, fk)
	}
	sort.Slice(fks, func(i, j int) bool { return fks[i][0] < fks[j][0] || fks[i][0] == fks[j][0] && fks[i][1] < fks[j][1] })
	for _, fk := range fks {
		f := b.fields[fk]
		str(&f.Comment, " changed")
		str(&f.Name, "Zz")
		if yes() {
			f.SetTag(`changed:"1"`)
		}
	}
	var value func(x *any)
	value = func(x *any) {
		switch v := (*x).(type) {
		case g.Symbol:
			str(&v.Name, "Zz")
			*x = v
		case *g.Symbol:
			str(&v.Name, "Zz")
		case g.MethodReference:
			str(&v.Method, "Zz")
			*x = v
		case *g.MethodReference:
			str(&v.Method, "Zz")
		case []any:
			for i := range v {
				value(&v[i])
			}
		case map[string]any:
			for _, k := range sortedKeys(v) {
				e := v[k]
				value(&e)
				v[k] = e
			}
		case tmplStruct:
			for i := range v.R {
				value(&v.R[i])
			}
		case *tmplStruct:
			value(&v.P.S)
			for i := range v.R {
				value(&v.R[i])
			}
		}
	}
	for i := range b.args {
		value(&b.args[i])
	}
	for i, f := range b.files {
		str(&f.FileComment, "\nchanged")
		str(&f.PackageComment, "\nchanged")
		if yes() {
			f.AddVar(g.NewVar(fmt.Sprintf("Late%d", i)).SetType(g.NamedType(late.G())))
		}
	}
}
