package harness

import (
	"errors"
	"fmt"
	"io"
	"path"
	"strings"
	"testing"
	"text/template"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// What goes wrong with one file of a list.
type fault struct {
	open  error
	limit int // bytes the writer takes, -1 for all
	write error
	once  bool // takes everything after it failed once
	close error
	broke int // 1: syntax error, 2: failing template
}

func (f fault) String() string {
	var s []string
	if f.open != nil {
		s = append(s, "open: "+f.open.Error())
	}
	if f.broke > 0 {
		s = append(s, []string{"", "syntax error", "failing template"}[f.broke])
	}
	if f.limit >= 0 {
		s = append(s, fmt.Sprintf("write fails %sat %d: %v", map[bool]string{true: "once "}[f.once], f.limit, f.write))
	}
	if f.close != nil {
		s = append(s, "close: "+f.close.Error())
	}
	if len(s) == 0 {
		return "ok"
	}
	return strings.Join(s, " and ")
}

// scriptWriter is one opened file.
type scriptWriter struct {
	limitWriter
	path   string
	closes int
	closed error
	onUse  func(what string)
}

func (w *scriptWriter) Write(p []byte) (int, error) {
	w.onUse("write")
	return w.limitWriter.Write(p)
}

func (w *scriptWriter) Close() error {
	w.onUse("close")
	w.closes++
	return w.closed
}

var failTmpl = template.Must(template.New("t").Funcs(template.FuncMap{"fail": func() (string, error) { return "", errors.New("no") }}).Parse("a{{fail}}"))

func TestC16(t *testing.T) {
	rapid.Check(t, func(t R) {
		p := genProg(t, ProgOpts{MaxPkgs: 3, MaxFiles: 2, MaxElems: 2, UnusedRegs: true, NoTempl: true})
		files := p.AllFiles()
		if rP(t, 1) {
			addLarge(t, rPick(t, files))
		}
		n := rSize(t, 16, 2, 3, 1, 4, 5, 6, 0)
		var list []int
		var faults []fault
		var desc []string
		first, kinds := -1, 0
		var cl []string
		chance := rPick(t, []int{0, 2, 5})
		for i := 0; i < n; i++ {
			fi := rInt(t, 0, len(files)-1)
			f := fault{limit: -1}
			e := func(s string) error {
				if rP(t, 4) {
					return rPick(t, writerErrors)
				}
				return fmt.Errorf("%s error of file %d", s, i)
			}
			if rP(t, chance) {
				f.open = e("open")
			}
			if rP(t, chance) {
				f.broke = rInt(t, 1, 2)
			}
			if rP(t, chance) {
				f.limit, f.write = rPick(t, []int{0, 0, 1, 10, 100}), e("write")
				f.once = rP(t, 4)
			}
			if rP(t, chance) {
				f.close = e("close")
			}
			list, faults = append(list, fi), append(faults, f)
			desc = append(desc, fmt.Sprintf("%s/%s %v", p.pkgOf(files[fi]).Path, files[fi].Name, f))
			if f.String() != "ok" {
				if first < 0 {
					first = i
					cl = append(cl, fmt.Sprintf("first failure at file %d", i))
				}
				kinds++
				cl = append(cl, f.kind())
			}
		}
		cl = append(cl, fmt.Sprintf("%d files", n), fmt.Sprintf("%d faulty", kinds))
		evCase(strings.Join(desc, " | "), n >= 2, cl...)
		b := build(p)
		fresh := make([]string, len(files))
		for i := range files {
			fresh[i] = mustRender(t, build(p).files[i], "a file")
		}
		// broken variants are files of their own
		var gfs []*g.GoFile
		for i, fi := range list {
			switch faults[i].broke {
			case 0:
				gfs = append(gfs, b.files[fi])
			case 1:
				gfs = append(gfs, build(p).files[fi].AddElement(g.NewFunc("1broken")))
			case 2:
				gfs = append(gfs, build(p).files[fi].AddElement(g.NewFunc("Zf").RenderCode(failTmpl, nil)))
			}
			if faults[i].limit >= len(fresh[fi]) {
				faults[i].limit = len(fresh[fi]) / 2
			}
		}
		var opened []*scriptWriter
		var problems []string
		opens := 0
		open := func(pth string) (io.WriteCloser, error) {
			i := opens
			opens++
			if i >= len(list) {
				problems = append(problems, fmt.Sprintf("%s is opened after all files", pth))
				return nil, errors.New("too many")
			}
			want := path.Join(p.pkgOf(files[list[i]]).Path, files[list[i]].Name)
			if pth != want {
				problems = append(problems, fmt.Sprintf("file %d is opened as %q, want %q", i, pth, want))
			}
			for j, o := range opened {
				if o.closes == 0 {
					problems = append(problems, fmt.Sprintf("file %d is still open when file %d is opened", j, i))
				}
			}
			if faults[i].open != nil {
				return nil, faults[i].open
			}
			w := &scriptWriter{path: pth, closed: faults[i].close}
			w.limit, w.err, w.once = faults[i].limit, faults[i].write, faults[i].once
			w.onUse = func(what string) {
				if w.closes > 0 {
					problems = append(problems, fmt.Sprintf("%s of file %d after it was closed", what, i))
				}
				if w != opened[len(opened)-1] {
					problems = append(problems, fmt.Sprintf("%s of file %d after a later one was opened", what, i))
				}
			}
			opened = append(opened, w)
			return w, nil
		}
		var err error
		panicked, pv, st := caught(func() { err = g.WriteGoFiles(open, gfs...) })
		if len(problems) > 0 {
			t.Fatalf("%s\nfiles: %v", strings.Join(problems, "\n"), desc)
		}
		// what must have happened
		fail := -1
		for i, f := range faults {
			if f.String() != "ok" {
				fail = i
				break
			}
		}
		if fail < 0 && panicked {
			t.Fatalf("WriteGoFiles panicked: %v\n%s", pv, trimStack(st))
		}
		wantOpens := len(list)
		if fail >= 0 {
			wantOpens = fail + 1
		}
		if opens != wantOpens {
			t.Fatalf("%d files were opened, want %d (of %v); error %v", opens, wantOpens, desc, err)
		}
		for i, w := range opened {
			if w.closes != 1 {
				t.Fatalf("file %d was closed %d times (of %v)", i, w.closes, desc)
			}
			got, want := w.b.String(), fresh[list[i]]
			switch {
			case faults[i].broke > 0:
				want = ""
			case faults[i].limit >= 0:
				want = want[:w.b.Len()]
				if w.late > 0 {
					t.Fatalf("file %d was written to after its writer failed", i)
				}
			}
			if got != want {
				t.Fatalf("file %d got\n%s\nwant\n%s", i, got, want)
			}
		}
		if fail < 0 {
			if err != nil {
				t.Fatalf("nothing failed and the error is %v", err)
			}
			return
		}
		f := faults[fail]
		var want error
		switch {
		case f.open != nil:
			want = f.open
		case f.broke == 1:
			if _, ok := err.(*g.FormatError); !ok || panicked {
				t.Fatalf("a syntax error in file %d is reported as %v (panic: %v)", fail, err, pv)
			}
			return
		case f.broke == 2:
			if err == nil && !panicked {
				t.Fatalf("a failing template in file %d is not reported", fail)
			}
			return
		case f.limit >= 0:
			want = f.write
		default:
			want = f.close
		}
		if panicked {
			t.Fatalf("WriteGoFiles panicked: %v\n%s", pv, trimStack(st))
		}
		if err != want {
			t.Fatalf("the first failure is %v and the error returned is %v (of %v)", want, err, desc)
		}
	})
}

func (f fault) kind() string {
	var s []string
	if f.open != nil {
		s = append(s, "open")
	}
	if f.broke > 0 {
		s = append(s, "render")
	}
	if f.limit >= 0 {
		s = append(s, "write")
	}
	if f.close != nil {
		s = append(s, "close")
	}
	return "fault in " + strings.Join(s, "+")
}
