package harness

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

func TestC12(t *testing.T) {
	rapid.Check(t, func(t R) {
		c, d := genDCase(t)
		cl := []string{fmt.Sprintf("references: %d", min(d.refs, 10))}
		for f := range d.feats {
			cl = append(cl, f)
		}
		evCase(c.desc(), d.refs > 0, cl...)
		checkQualified(t, c, false)
	})
}
