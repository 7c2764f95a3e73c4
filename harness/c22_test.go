package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// onlyExported tells whether the value holds no reference in an unexported
// field that would be replaced or imported.
func onlyExported(c *DCase) bool {
	in := newDEnv(c).build(c.T, c.V)
	tab := map[string]string{}
	for i, p := range c.Ext { // names no reference has
		tab[p.Path] = fmt.Sprintf("\x00%d", i)
	}
	of := func(pure bool) string {
		need, extra := map[string]bool{}, map[string]bool{}
		d := &describer{own: c.Own.Path, tab: tab, paths: need, extra: extra, purego: pure, noAddr: true}
		s := d.describe(slot(in))
		return fmt.Sprintf("%s needs %q or %q (%d)", s, sortedKeys(need), sortedKeys(extra), d.extras)
	}
	return of(false) == of(true)
}

func TestC22(t *testing.T) {
	p := startPeer("VERIF_PUREGO_BIN")
	defer p.stop()
	ask := func(c peerCase) []string {
		r, ok := p.ask(c)
		if !ok {
			harnessBug("the peer process ended")
		}
		return r
	}
	rapid.Check(t, func(t R) {
		same := func(c peerCase) {
			a, b := c.run(), ask(c)
			if !equalStrings(a, b) {
				d := ""
				if len(c.Data) > 0 {
					d = " of " + c.Data[0].desc()
				}
				t.Fatalf("%s%s: the builds differ (the first is the default one)\n%s", c.Op, d, firstDiff(a, b))
			}
		}
		switch rWeighted(t, 8, 3, 1) {
		case 0: // template data
			ext := genPkgs(t, 1, 4, false)
			if len(ext) == 0 {
				ext = []*MPkg{{Path: "ex.com/a/alpha", Name: "alpha"}}
			}
			c, d := newDCase(t, ext)
			d.unexp = rP(t, 8)
			d.cyc = !d.unexp
			c.T, c.V = d.root()
			cl := []string{"data"}
			for f := range d.feats {
				cl = append(cl, f)
			}
			only := onlyExported(c)
			cl = append(cl, cond(only, "same result expected"), cond(!only, "unexported fields carried over"))
			evCase(c.desc(), d.refs > 0, cl...)
			if msg := ask(peerCase{Op: "check", Data: []DCase{*c}})[0]; msg != "" {
				t.Fatalf("in the build without unsafe: %s", msg)
			}
			if only {
				same(peerCase{Op: "qualify", Data: []DCase{*c}})
				if rP(t, 5) {
					same(peerCase{Op: "template", Data: []DCase{*c}})
				}
			}
		case 1:
			c := peerCase{Op: "render", Prog: genProg(t, ProgOpts{MaxPkgs: 2, MaxFiles: 2, MaxElems: 5, UnusedRegs: true})}
			feats, refs := progFeatures(c.Prog)
			evCase(c.desc(), refs >= 2, append(feats, "program")...)
			same(c)
		default:
			c := peerCase{Op: "names", Strs: rapid.SliceOfN(rapid.String(), 1, 8).Draw(t, "strings")}
			evCase(strings.Join(c.Strs, "|"), true, "names")
			same(c)
		}
	})
}
