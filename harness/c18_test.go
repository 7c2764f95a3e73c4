package harness

import (
	"fmt"
	"go/token"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	g "github.com/jhump/gopoet"
	"pgregory.net/rapid"
)

func c18Check(s string) string {
	r, sz := utf8.DecodeRuneInString(s)
	rest := s[sz:]
	var ex, un string
	pe, _, _ := caught(func() { ex = g.Export(s) })
	pu, _, _ := caught(func() { un = g.Unexport(s) })
	if s == "" {
		if pe || pu || ex != "" || un != "" {
			return fmt.Sprintf("empty name: Export %q (panic %v), Unexport %q (panic %v)", ex, pe, un, pu)
		}
		return ""
	}
	if r == utf8.RuneError && sz <= 1 {
		if !pe || !pu {
			return fmt.Sprintf("%q starts with invalid UTF-8 but Export panic=%v Unexport panic=%v", s, pe, pu)
		}
		return ""
	}
	if pe || pu {
		return fmt.Sprintf("%q: Export panicked=%v Unexport panicked=%v", s, pe, pu)
	}
	if !token.IsExported(ex) {
		return fmt.Sprintf("Export(%q) = %q is not exported", s, ex)
	}
	if token.IsExported(un) {
		return fmt.Sprintf("Unexport(%q) = %q is exported", s, un)
	}
	// only the start changes
	var want string
	switch {
	case unicode.IsUpper(r):
		want = s
	case unicode.IsUpper(unicode.ToUpper(r)):
		want = string(unicode.ToUpper(r)) + rest
	case r == '_':
		want = "X" + rest
	default:
		want = "X" + s
	}
	if ex != want {
		return fmt.Sprintf("Export(%q) = %q, want %q", s, ex, want)
	}
	low := unicode.ToLower(r)
	switch {
	case unicode.IsUpper(r) && !unicode.IsUpper(low):
		if un != string(low)+rest {
			return fmt.Sprintf("Unexport(%q) = %q, want %q", s, un, string(low)+rest)
		}
	case unicode.IsUpper(r):
		if !strings.HasSuffix(un, s) {
			return fmt.Sprintf("Unexport(%q) = %q does not keep the name", s, un)
		}
	default:
		// not exported to begin with: nothing but the case of the start may change
		if un != s && un != string(low)+rest {
			return fmt.Sprintf("Unexport(%q) = %q changes a name that is not exported", s, un)
		}
	}
	if e2 := g.Export(ex); e2 != ex {
		return fmt.Sprintf("Export(%q) = %q but Export of that = %q", s, ex, e2)
	}
	if u2 := g.Unexport(un); u2 != un {
		return fmt.Sprintf("Unexport(%q) = %q but Unexport of that = %q", s, un, u2)
	}
	return ""
}

func c18Class(s string) string {
	r, sz := utf8.DecodeRuneInString(s)
	switch {
	case s == "":
		return "start:none"
	case r == utf8.RuneError && sz <= 1:
		return "start:invalid-utf8"
	case unicode.IsUpper(r):
		return "start:upper"
	case unicode.IsLower(r):
		return "start:lower"
	case unicode.IsTitle(r):
		return "start:title"
	case r == '_':
		return "start:underscore"
	case unicode.IsLetter(r):
		return "start:uncased-letter"
	case unicode.IsDigit(r):
		return "start:digit"
	}
	return "start:other"
}

// TestC18 first goes through every code point as a leading character, then
// draws arbitrary names.
func TestC18(t *testing.T) {
	if shard() == 0 {
		for _, rest := range []string{"", "bC", "_9", "é"} {
			for r := rune(0); r <= unicode.MaxRune; r++ {
				if r >= 0xD800 && r <= 0xDFFF {
					continue
				}
				s := string(r) + rest
				if msg := c18Check(s); msg != "" {
					t.Fatalf("code point %U: %s", r, msg)
				}
				ev.Evals++
				ev.Extra["all-code-points"]++
			}
		}
	}
	cased := []rune{}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.ToUpper(r) != r || unicode.ToLower(r) != r {
			cased = append(cased, r)
		}
	}
	rapid.Check(t, func(t *rapid.T) {
		var s string
		switch rWeighted(t, 4, 3, 3, 2) {
		case 0:
			s = string(rapid.SampledFrom(cased).Draw(t, "r")) + rapid.String().Draw(t, "rest")
		case 1:
			s = rapid.String().Draw(t, "s")
		case 2:
			s = rapid.StringMatching(`[_a-zA-Z0-9]{0,8}`).Draw(t, "ident")
		default:
			s = string(rapid.SliceOf(rapid.Byte()).Draw(t, "bytes"))
		}
		c := c18Class(s)
		evCase(fmt.Sprintf("%q", s), s != "" && c != "start:upper", c)
		if msg := c18Check(s); msg != "" {
			t.Fatalf("%s", msg)
		}
	})
}
