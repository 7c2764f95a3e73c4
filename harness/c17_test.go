package harness

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

// disk is the model of a directory tree: content by path relative to the
// scratch directory. A directory has the content "dir".
type disk map[string]string

const isDir = "\x00dir"

func readDisk(root string) disk {
	d := disk{}
	err := filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err != nil || p == root {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case e.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			d[rel] = "\x00link " + l
		case e.IsDir():
			d[rel] = isDir
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			d[rel] = string(b)
			if i, err := e.Info(); err == nil && i.Mode().Perm()&0o600 != 0o600 {
				d[rel] = "\x00mode " + i.Mode().String() // can't be written again
			}
		}
		return nil
	})
	if err != nil {
		harnessBug("reading the scratch directory: %v", err)
	}
	return d
}

func (d disk) copy() disk {
	r := disk{}
	for k, v := range d {
		r[k] = v
	}
	return r
}

func (d disk) diff(o disk) string {
	keys := map[string]bool{}
	for k := range d {
		keys[k] = true
	}
	for k := range o {
		keys[k] = true
	}
	show := func(d disk, k string) string {
		v, ok := d[k]
		if !ok {
			return "absent"
		}
		if v == isDir {
			return "a directory"
		}
		return fmt.Sprintf("%d bytes %q", len(v), v)
	}
	var r []string
	for _, k := range sortedKeys(keys) {
		a, oka := d[k]
		b, okb := o[k]
		if oka != okb || a != b {
			r = append(r, fmt.Sprintf("%s: is %s, want %s", k, show(o, k), show(d, k)))
		}
	}
	return strings.Join(r, "\n")
}

// mkdirs makes a directory and its parents; it reports whether that works.
func (d disk) mkdirs(rel string) bool {
	if rel == "." || rel == "" {
		return true
	}
	parts := strings.Split(rel, "/")
	for i := range parts {
		p := strings.Join(parts[:i+1], "/")
		if c, ok := d[p]; ok && c != isDir {
			return false
		}
	}
	for i := range parts {
		d[strings.Join(parts[:i+1], "/")] = isDir
	}
	return true
}

// outFile is a file to write.
type outFile struct {
	pkg, name string
	consts    int
	broken    bool
	comment   string
}

func (o outFile) make() *g.GoFile {
	f := g.NewGoFile(o.name, o.pkg, "p")
	f.FileComment = o.comment
	d := g.NewConstDecl()
	for i := 0; i < o.consts; i++ {
		d.AddConst(g.NewConst(fmt.Sprintf("C%d", i)).Initialize("%d", i*i))
	}
	if o.consts > 0 {
		f.AddElement(d)
	}
	f.AddElement(g.NewFunc("F").Printlnf("%s()", g.NewSymbol("ex.com/other", "F")))
	if o.broken {
		f.AddElement(g.NewFunc("1broken"))
	}
	return f
}

func (o outFile) String() string {
	s := fmt.Sprintf("%s|%s(%d)", o.pkg, o.name, o.consts)
	if o.broken {
		s += "!"
	}
	return s
}

var (
	c17Pkgs  = []string{"", "a", "a/b", "ex.com/x/y", "ex.com/x", "a/f.go", "a/b/c/d/e", "Ü/é", "a b", "f.go", "g.go/h", "a/../c", "./a", "a//b"}
	c17Names = []string{"f.go", "g.go", "x_test.go", "Ü.go", "a b.go", "f.pb.go", "b.go", "-.go", "f.go.go", "...go"}
	c17Roots = []string{"r", "r/s", "r/new/deep", "other", "r/", "./r", "r/../r2", "r//s", "lnk", "r/a", "r ", " r", "~", "~/r", "$HOME", "${HOME}/r", "r%s", "r*", "r\n", "R", "\"r\"", "r;s", "-r", "Ü"}
)

func openFDs(dir string) []string {
	var r []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			r = append(r, l)
		}
	}
	return r
}

func TestC17(t *testing.T) {
	cwd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(cwd)
	oldPath, hadPath := os.LookupEnv("GOPATH")
	defer func() {
		if hadPath {
			os.Setenv("GOPATH", oldPath)
		} else {
			os.Unsetenv("GOPATH")
		}
	}()
	rapid.Check(t, func(t R) {
		if rP(t, 3) {
			c17Names17(t)
			return
		}
		scratch, err := os.MkdirTemp("", "c17-")
		if err != nil {
			harnessBug("%v", err)
		}
		defer os.RemoveAll(scratch)
		if scratch, err = filepath.EvalSymlinks(scratch); err != nil {
			harnessBug("%v", err)
		}
		if err := os.Chdir(scratch); err != nil {
			harnessBug("%v", err)
		}
		defer os.Chdir(cwd)
		m := disk{}
		put := func(rel, content string) {
			if rel == "" {
				return
			}
			if _, ok := m[rel]; ok || !m.copy().mkdirs(filepath.Dir(rel)) {
				return
			}
			m.mkdirs(filepath.Dir(rel))
			m[rel] = content
			os.MkdirAll(filepath.Join(scratch, filepath.Dir(rel)), 0o777)
			if content == isDir {
				os.Mkdir(filepath.Join(scratch, rel), 0o777)
			} else {
				os.WriteFile(filepath.Join(scratch, rel), []byte(content), 0o666)
			}
		}
		// lnk is a link to a directory
		os.Symlink("real", filepath.Join(scratch, "lnk"))
		os.Mkdir(filepath.Join(scratch, "real"), 0o777)
		m["lnk"], m["real"] = "\x00link real", isDir
		var hist, cl []string
		writes := 0
		// few places, so that they are written to more than once
		roots, pkgs, names := c17Some(t, c17Roots, 2), c17Some(t, c17Pkgs, 3), c17Some(t, c17Names, 2)
		defer func() {
			evCase(strings.Join(hist, "; "), writes >= 2, cl...)
		}()
		for k := rSize(t, 14, 1, 2, 3, 4, 5, 6); k > 0; k-- {
			root := rPick(t, roots)
			switch rWeighted(t, 4, 2, 3, 1) {
			case 2: // somebody else's files
				rel := filepath.Join(strings.Replace(root, "lnk", "real", 1), rPick(t, pkgs), rPick(t, names))
				if rP(t, 5) {
					rel = filepath.Join(filepath.Dir(rel), rPick(t, []string{"notes.txt", "f.go~", "f.go.tmp", ".f.go.swp", "f"}))
				}
				if rP(t, 2) {
					put(rel, isDir)
					hist = append(hist, "directory "+rel)
				} else {
					c := strings.Repeat("old content\n", rInt(t, 0, 60))
					put(rel, c)
					hist = append(hist, fmt.Sprintf("%d old bytes in %s", len(c), rel))
				}
				continue
			case 3: // something is removed
				if keys := sortedKeys(m); len(keys) > 0 {
					k := rPick(t, keys)
					if k == "lnk" || k == "real" {
						continue
					}
					hist = append(hist, "remove "+k)
					os.RemoveAll(filepath.Join(scratch, k))
					for o := range m {
						if o == k || strings.HasPrefix(o, k+"/") {
							delete(m, o)
						}
					}
				}
				continue
			case 0:
				c17Write(t, scratch, m, pkgs, names, root, false, "", &hist, &cl, &writes)
			case 1:
				gp := filepath.Join(scratch, root)
				sep := string(filepath.ListSeparator)
				abs := scratch + "/" + root
				// the other entries may exist when the first does not
				second, third := rPick(t, append([]string{"second", "real"}, c17Roots...)), rPick(t, []string{"third", "real", "r"})
				switch rInt(t, 0, 4) {
				case 0:
					abs = gp
				case 1:
					abs += sep + scratch + "/" + second
				case 2:
					abs += sep
				case 3:
					abs += sep + sep + scratch + "/" + second + sep + scratch + "/" + third
				default:
					abs = ""
				}
				c17Write(t, scratch, m, pkgs, names, root, true, abs, &hist, &cl, &writes)
			}
		}
	})
}

func c17Some(t R, xs []string, max int) []string {
	var r []string
	for i := rInt(t, 1, max); i > 0; i-- {
		r = append(r, rPick(t, xs))
	}
	return r
}

func c17Write(t R, scratch string, m disk, pkgs, names []string, root string, gopath bool, gp string, hist, cl *[]string, writes *int) {
	var list []outFile
	var gfs []*g.GoFile
	for i := rSize(t, 9, 0, 1, 2, 3); i > 0; i-- {
		o := outFile{pkg: rPick(t, pkgs), name: rPick(t, names), consts: rInt(t, 0, 12), broken: rapid.IntRange(0, 31).Draw(t, "broken") == 31}
		if rP(t, 4) {
			o.comment = strings.Repeat("long comment ", rInt(t, 1, 900))
		}
		list = append(list, o)
		gfs = append(gfs, o.make())
	}
	*writes += len(list)
	before := m.copy()
	base := strings.Replace(filepath.Clean(root), "lnk", "real", 1)
	failAt, broken := -1, ""
	if gopath && gp == "" {
		failAt = 0
	} else {
		for i, o := range list {
			rel := filepath.Join(base, o.pkg, o.name)
			if !m.copy().mkdirs(filepath.Dir(rel)) {
				failAt = i
				*cl = append(*cl, "a file where a directory is needed")
				break
			}
			if m[rel] == isDir {
				failAt = i
				*cl = append(*cl, "a directory where a file is needed")
				break
			}
			m.mkdirs(filepath.Dir(rel))
			old, had := m[rel]
			if o.broken {
				failAt, broken = i, rel
				*cl = append(*cl, "syntax error")
				break
			}
			want := mustRender(t, o.make(), "a file")
			if had {
				*cl = append(*cl, "overwritten")
				if len(old) > len(want) {
					*cl = append(*cl, "overwritten by a shorter one")
				}
			}
			m[rel] = want
		}
	}
	var err error
	var what string
	if gopath {
		what = fmt.Sprintf("GOPATH=%s write %v", strings.ReplaceAll(gp, scratch, "$S"), list)
		*cl = append(*cl, "by GOPATH")
		if gp == "" && rP(t, 8) {
			os.Unsetenv("GOPATH")
		} else {
			os.Setenv("GOPATH", gp)
		}
		mustNot(t, "WriteGoFilesToGoPath", func() { err = g.WriteGoFilesToGoPath(gfs...) })
	} else {
		arg := root
		if rP(t, 10) {
			arg = scratch + "/" + root
		}
		what = fmt.Sprintf("write %v to %s", list, strings.ReplaceAll(arg, scratch, "$S"))
		*cl = append(*cl, "by directory")
		mustNot(t, "WriteGoFilesToFileSystem", func() { err = g.WriteGoFilesToFileSystem(arg, gfs...) })
	}
	*hist = append(*hist, what)
	got := readDisk(scratch)
	if broken != "" {
		// what is left of a file that cannot be rendered is not specified
		if c, ok := got[broken]; ok {
			m[broken] = c
		} else {
			delete(m, broken)
			if _, had := before[broken]; !had {
				// nor are its directories
				m.forget(got)
			}
		}
	} else if failAt >= 0 && !(gopath && gp == "") {
		m.forget(got)
	}
	if d := m.diff(got); d != "" {
		t.Fatalf("after %s (error %v) the tree is not as it must be:\n%s\nhistory: %s", what, err, d, strings.Join(*hist, "; "))
	}
	if (err != nil) != (failAt >= 0) {
		t.Fatalf("%s: error %v, want failure: %v\nhistory: %s", what, err, failAt >= 0, strings.Join(*hist, "; "))
	}
	if fds := openFDs(scratch); len(fds) > 0 {
		sort.Strings(fds)
		t.Fatalf("%s leaves %v open", what, fds)
	}
}

// forget drops empty directories that are not there.
func (d disk) forget(got disk) {
	for k, v := range d {
		if _, ok := got[k]; v == isDir && !ok {
			empty := true
			for o, c := range d {
				if strings.HasPrefix(o, k+"/") && c != isDir {
					empty = false
				}
			}
			if empty {
				delete(d, k)
			}
		}
	}
}

// c17Names17: which file names are refused.
func c17Names17(t R) {
	var s string
	switch rInt(t, 0, 3) {
	case 0:
		s = rPick(t, c17Names)
	case 1:
		s = rapid.StringN(0, 6, -1).Draw(t, "name") + rPick(t, []string{".go", "", ".GO", ".g", "go", ".go ", ".gox", ".go/", ".go.txt", "/.go", ".go\n"})
	case 2:
		s = rPick(t, []string{"a/", "/", "../", "./", "a/b/", "", "\\", "C:"}) + rPick(t, c17Names)
	default:
		s = rPick(t, []string{"", ".", "..", "a", "a.", "go", "a.go/..", "a.go/.", "/a.go", "//", "a.go//"})
	}
	refused := strings.Contains(s, "/") || !strings.HasSuffix(s, ".go")
	evCase(fmt.Sprintf("name %q", s), true, cond(refused, "refused name"), cond(!refused, "accepted name"))
	var f *g.GoFile
	p, v, _ := caught(func() { f = g.NewGoFile(s, "ex.com/p", "pn") })
	if p != refused {
		t.Fatalf("a file named %q: refused %v, want %v (%v)", s, p, refused, v)
	}
	if !p && (f.Name != s || f.PackageName != "pn" || f.Package() != g.Package{ImportPath: "ex.com/p", Name: "pn"}) {
		t.Fatalf("the file is named %q in package %q %v", f.Name, f.PackageName, f.Package())
	}
}
