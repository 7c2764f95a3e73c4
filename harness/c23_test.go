package harness

import (
	"bytes"
	"fmt"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// raceLog is where the race detector writes its reports, if this is a build
// with the race detector.
type raceLog struct {
	path string
	at   int64
}

func newRaceLog() *raceLog {
	if p := os.Getenv("VERIF_RACE_LOG"); p != "" {
		return &raceLog{path: fmt.Sprintf("%s.%d", p, os.Getpid())}
	}
	return nil
}

// news gives what was reported since the last call.
func (l *raceLog) news() string {
	if l == nil {
		return ""
	}
	fi, err := os.Stat(l.path)
	if err != nil || fi.Size() <= l.at {
		return ""
	}
	b, err := os.ReadFile(l.path)
	if err != nil {
		harnessBug("reading the reports of the race detector: %v", err)
	}
	s := string(b[l.at:])
	l.at = int64(len(b))
	return s
}

// job is something one goroutine does.
type job struct {
	name string
	run  func() []string
}

// together runs the jobs at the same time and gives what each one returned.
func together(jobs []job) [][]string {
	out := make([][]string, len(jobs))
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	for i := range jobs {
		i := i
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			out[i] = safely(jobs[i].run)
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	return out
}

func safely(f func() []string) (out []string) {
	p, v, st := caught(func() { out = f() })
	if p {
		out = append(out, fmt.Sprintf("panic: %v\n%s", v, trimStack(st)))
	}
	return out
}

// renderAll renders the files one after another, each by itself, all with one
// call, or to disk.
func renderAll(b *builder, fs []int, how int) (out []string) {
	switch how {
	case 0:
		for _, i := range fs {
			s, err := render(b.files[i])
			out = append(out, fmt.Sprint(s, "\nerror: ", err, "\n", specList(&b.files[i].Imports)))
		}
		return out
	case 2:
		return b.onDisk(fs)
	}
	var bufs []*bytes.Buffer
	var files []*g.GoFile
	for _, i := range fs {
		files = append(files, b.files[i])
	}
	err := g.WriteGoFiles(func(string) (io.WriteCloser, error) {
		bufs = append(bufs, &bytes.Buffer{})
		return nopCloser{bufs[len(bufs)-1]}, nil
	}, files...)
	for k, i := range fs {
		s := ""
		if k < len(bufs) {
			s = bufs[k].String()
		}
		out = append(out, fmt.Sprint(s, "\nerror: ", err, "\n", specList(&b.files[i].Imports)))
	}
	return out
}

// onDisk writes the files to a directory of their own and reads them back.
func (b *builder) onDisk(fs []int) (out []string) {
	root, err := os.MkdirTemp("", "c23")
	if err != nil {
		harnessBug("%v", err)
	}
	defer os.RemoveAll(root)
	var files []*g.GoFile
	for _, i := range fs {
		files = append(files, b.files[i])
	}
	err = g.WriteGoFilesToFileSystem(root, files...)
	out = append(out, fmt.Sprint("error: ", err))
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			out = append(out, "walk: "+err.Error())
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		s := rel + " " + d.Type().String()
		if d.Type().IsRegular() {
			c, err := os.ReadFile(p)
			s += fmt.Sprint("\n", string(c), err)
		}
		out = append(out, s)
		return nil
	})
	return out
}

// scene is a set of jobs over one set of shared objects.
type scene struct {
	p      *Prog
	groups [][]int // files by goroutine
	how    []int
	lone   []*Prog // programs that share nothing, each with its own goroutine
	data   *DCase
	ndata  int
	mt     *MT
	nmt    int
	names  map[string]string // real package names, to make go/types values
	own    string
	rt     []reflect.Type
	peer   peerCase
	asks   int
}

// jobs makes fresh objects and what is to be done with them.
func (s *scene) jobs() (js []job) {
	add := func(name string, f func() []string) { js = append(js, job{name, f}) }
	if s.p != nil {
		b := buildWith(s.p, true)
		for k, fs := range s.groups {
			fs, how := fs, s.how[k]
			add(fmt.Sprintf("%s %v", []string{"render files", "render list of files", "write files to disk"}[how], fs), func() []string { return renderAll(b, fs, how) })
		}
		for i := 0; i < s.asks; i++ {
			add("ask the elements", func() []string { return b.answers() })
		}
	}
	for _, p := range s.lone {
		p := p
		add("build and render another program", func() []string { return p.rendered() })
	}
	if s.data != nil {
		in := newDEnv(s.data).build(s.data.T, s.data.V)
		for i := 0; i < s.ndata; i++ {
			add("qualify template data", func() []string {
				im := s.data.imports()
				x := im.QualifyTemplateData(in.Interface())
				return []string{fmt.Sprintf("%T", x), (&describer{own: s.data.Own.Path, noAddr: true}).describe(slot(reflect.ValueOf(&x).Elem().Elem())), specList(im)}
			})
		}
	}
	if s.mt != nil {
		tn := s.mt.G()
		for i := 0; i < s.nmt; i++ {
			i := i
			add("use a type", func() []string {
				im := g.NewImportsFor(s.own)
				q := im.EnsureTypeImported(tn)
				out := []string{tn.String(), FromG(tn).CanonQ(), q.String(), FromG(im.QualifyType(tn)).CanonQ(), specList(im)}
				if i%2 == 1 && tn.Kind() == g.KindFunc {
					out = append(out, FromGSig(im.EnsureAllTypesImported(tn.Signature())).CanonQ())
				}
				ts := g.NewTypeSpec("ZT", tn)
				return append(out, ts.Underlying().String())
			})
		}
	}
	if s.names != nil {
		gt := (&goEnv{names: s.names, pkg: types.NewPackage(s.own, "p")}).typ(s.mt)
		for i := 0; i < 2; i++ {
			add("convert a go/types type", func() []string {
				x := g.TypeNameForGoType(gt)
				return []string{x.String(), FromG(x).CanonQ()}
			})
		}
	}
	for _, rt := range s.rt {
		rt := rt
		add("convert reflect type ["+rt.String()+"]", func() []string {
			x := g.TypeNameForReflectType(rt)
			im := g.NewImportsFor(s.own)
			return []string{x.String(), FromG(x).CanonQ(), im.EnsureTypeImported(x).String(), specList(im)}
		})
	}
	if s.peer.Op != "" {
		add("use names", func() []string { return s.peer.run() })
	}
	return js
}

// answers is what the elements answer, apart from the files (which belong to
// those who render them) and addresses.
func (b *builder) answers() (out []string) {
	for _, s := range b.derived() {
		if !strings.HasPrefix(s, "file ") && !strings.HasPrefix(s, "argument ") && !strings.Contains(s, "0x") {
			out = append(out, s)
		}
	}
	return out
}

func (s *scene) desc(names []string) string {
	d := strings.Join(names, "; ")
	if s.p != nil {
		d += "\n" + strings.Join(refSrcs(s.p, false), "\n=====\n")
	}
	if s.data != nil {
		d += "\ndata " + s.data.desc()
	}
	if s.mt != nil {
		d += "\ntype " + s.mt.CanonQ()
	}
	return d
}

func TestC23(t *testing.T) {
	log := newRaceLog()
	log.news()
	rapid.Check(t, func(t R) {
		s := &scene{own: "own.example/p"}
		var shares []string
		kind := rWeighted(t, 5, 2, 2, 2)
		if kind == 0 || rP(t, 3) {
			s.p = genProg(t, ProgOpts{MaxPkgs: 3, MaxFiles: 2, MaxElems: 4, UnusedRegs: true})
			shares, _ = shareParts(t, s.p)
			n := len(s.p.AllFiles())
			k := rInt(t, 1, n)
			s.groups = make([][]int, k)
			s.how = make([]int, k)
			for i := 0; i < n; i++ {
				j := i % k
				if rP(t, 6) {
					j = rInt(t, 0, k-1)
				}
				s.groups[j] = append(s.groups[j], i)
			}
			for i := range s.how {
				s.how[i] = rWeighted(t, 8, 4, 2)
			}
			s.asks = rWeighted(t, 8, 4, 2)
		}
		if kind == 1 || rP(t, 2) {
			for i := rInt(t, 1, 3); i > 0; i-- {
				s.lone = append(s.lone, genProg(t, ProgOpts{MaxPkgs: 1, MaxFiles: 1, MaxElems: 3, UnusedRegs: true}))
			}
		}
		if kind == 2 || rP(t, 2) {
			s.data, _ = genDCase(t)
			s.ndata = rInt(t, 2, 4)
		}
		if kind == 3 || rP(t, 2) {
			pkgs := genPkgs(t, 1, 4, false)
			s.mt = (&TGen{R: t, Named: append(allNamed(pkgs), predeclaredNamed...), AnyTag: true, BigLen: true, Unexp: true, Blank: 4, Depth: 3}).Type()
			s.nmt = rInt(t, 2, 4)
			if rP(t, 6) {
				s.names = map[string]string{}
				for _, p := range pkgs {
					s.names[p.Path] = p.Name
				}
			}
		}
		if rP(t, 5) {
			for i := rInt(t, 1, 4); i > 0; i-- {
				rt := rPick(t, staticTypes).rt
				if rP(t, 8) {
					rt = reflect.ArrayOf(rInt(t, 0, 1<<40), reflect.PointerTo(rt))
				}
				s.rt = append(s.rt, rt)
				if rP(t, 8) {
					s.rt = append(s.rt, rt)
				}
			}
		}
		if rP(t, 4) {
			s.peer = peerCase{Op: "names", Strs: rapid.SliceOfN(rapid.StringMatching(`[a-zA-Z_éß]{0,5}(/[a-z]{1,3})?`), 1, 3).Draw(t, "strs")}
		}
		var names []string
		first := s.jobs()
		for _, j := range first {
			names = append(names, j.name)
		}
		classes := append([]string{}, shares...)
		for _, n := range names {
			classes = append(classes, strings.TrimRight(strings.SplitN(n, " [", 2)[0], " "))
		}
		evCase(s.desc(names), len(names) > 1, append(classes, fmt.Sprintf("%d goroutines", len(names)))...)
		if r := log.news(); r != "" {
			harnessBug("a race without goroutines: %s", r)
		}
		// At first together, when nothing is warm yet. What each job gives when
		// it is the only one to use its objects comes later.
		var want [][]string
		for round := 0; round < 2; round++ {
			js := first
			if round > 0 {
				js = s.jobs()
			}
			got := together(js)
			if r := log.news(); r != "" {
				if !strings.Contains(r, "github.com/jhump/gopoet.") {
					harnessBug("a race of the harness's own: %s", r)
				}
				t.Fatalf("concurrent use of separate files, with the jobs %q (sharing %v), is not safe:\n%s", names, shares, r)
			}
			if want == nil {
				for i := range js {
					want = append(want, safely(s.jobs()[i].run))
				}
			}
			for i := range js {
				if !equalStrings(got[i], want[i]) {
					t.Fatalf("%s gives another result when done at the same time as %q (sharing %v):\n%s", names[i], names, shares, firstDiff(want[i], got[i]))
				}
			}
		}
	})
}
