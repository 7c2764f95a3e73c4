package harness

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// genConflicts gives packages whose names conflict, so that the order in which
// they are met decides on their aliases.
func genConflicts(t R) []*MPkg {
	var r []*MPkg
	base := rPick(t, []string{"alpha", "beta", "x_y"})
	for i, n := 0, rInt(t, 2, 6); i < n; i++ {
		p := &MPkg{Path: fmt.Sprintf("ex.com/d%d/%s", (i*7+3)%10, base), Name: base}
		if rP(t, 3) {
			p.Name = base + "1"
		}
		r = append(r, p)
	}
	return r
}

func genMapCase(t R) (*DCase, *dGen) {
	c, d := newDCase(t, genConflicts(t))
	d.moreKeys = 5
	switch rInt(t, 0, 5) {
	case 5:
		// what the keys point to tells entries apart, and nothing else
		c.T = &DT{K: "map", Key: d.pointerKey(), Elem: &DT{K: rPick(t, []string{"bool", "any", "func"})}}
	case 4:
		// only the keys tell entries apart
		c.T = &DT{K: "map", Key: d.typ(2, true), Elem: &DT{K: "bool"}}
	case 0:
		c.T = &DT{K: "map", Key: d.typ(2, true), Elem: d.typ(1, false)}
	case 1:
		c.T = &DT{K: "map", Key: d.typ(2, true), Elem: &DT{K: rPick(t, []string{"any", "Symbol", "Package", "TypeName"})}}
	case 2:
		c.T = &DT{K: "map", Key: d.typ(2, true), Elem: &DT{K: "map", Key: d.typ(2, true), Elem: &DT{K: "Package"}}}
		if rP(t, 4) {
			c.T.Key, c.T.Elem.Key = &DT{K: "ptr", Elem: &DT{K: "string"}}, &DT{K: rPick(t, []string{"string", "int"})}
		}
	case 3:
		c.T = d.typ(4, false)
	}
	c.V = d.val(c.T, 6)
	return c, d
}

func TestC13(t *testing.T) {
	p := startPeer("VERIF_PEER_BIN")
	defer p.stop()
	rapid.Check(t, func(t R) {
		var c peerCase
		nt := false
		var cl []string
		runs := 4
		switch rWeighted(t, 3, 4, 3) {
		case 0:
			c = peerCase{Op: "render", Prog: genProg(t, ProgOpts{MaxPkgs: 2, MaxFiles: 2, MaxElems: 5, UnusedRegs: true})}
			feats, refs := progFeatures(c.Prog)
			nt = refs >= 2
			cl = append(cl, feats...)
			runs = 2
		case 1:
			d, dg := genMapCase(t)
			c = peerCase{Op: "qualify", Data: []DCase{*d}}
			nt = dg.refs >= 2
			for f := range dg.feats {
				cl = append(cl, f)
			}
		default:
			d, dg := genMapCase(t)
			c = peerCase{Op: "template", Data: []DCase{*d}}
			if rP(t, 6) {
				e := *d
				e.T = dg.typ(3, false)
				e.V = dg.val(e.T, 4)
				c.Data = append(c.Data, e)
			}
			nt = dg.refs >= 2
			for f := range dg.feats {
				cl = append(cl, f)
			}
		}
		cl = append(cl, c.Op)
		evCase(c.desc(), nt, cl...)
		first := c.run()
		for i := 0; i < runs; i++ {
			if again := c.run(); !equalStrings(first, again) {
				t.Fatalf("two equal models give different results in one process:\n%s", firstDiff(first, again))
			}
		}
		other, ok := p.ask(c)
		if !ok {
			harnessBug("the peer process ended")
		}
		if !equalStrings(first, other) {
			t.Fatalf("two equal models give different results in two processes:\n%s", firstDiff(first, other))
		}
	})
}

func firstDiff(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d results: %q and %q", len(a), len(b), a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("--- first\n%s\n--- then\n%s", a[i], b[i])
		}
	}
	return ""
}

func (c *peerCase) desc() string {
	if c.Prog != nil {
		s := ""
		for _, x := range refSrcs(c.Prog, false) {
			s += x + "\n=====\n"
		}
		return s
	}
	s := c.Op
	for i := range c.Data {
		s += " " + c.Data[i].desc()
	}
	return s
}
