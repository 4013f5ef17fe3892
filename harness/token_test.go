package token_test

import (
	"fmt"
	"testing"

	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
)

func TestVerifTokenCache(t *testing.T) {
	v := verifStart(t, "one token asked for its character sets in every order (with repetitions), against the direct predicate; non-trivial: at least three different sets asked;")
	sets := []yamlchar.CharSetType{
		yamlchar.DecimalCharSetType, yamlchar.WordCharSetType, yamlchar.URICharSetType, yamlchar.TagCharSetType,
		yamlchar.AnchorCharSetType, yamlchar.PlainSafeCharSetType, yamlchar.SingleQuotedCharSetType, yamlchar.DoubleQuotedCharSetType,
	}
	words := []string{"", "1", "abc", "a-b", "http://x", "!x", "a,b", "it''s", "it's", `a\n`, `a\q`, `"`, "%41", "%4", "[x]", "é", "a b", "\x01", "~", "12a", "%zz", "#", "\\"}
	check := func(w string, order []int) bool {
		tok := token.Token{Type: token.StringType, Origin: w}
		seen := map[int]bool{}
		for i, k := range order {
			seen[k] = true
			if got, want := tok.ConformsCharSet(sets[k]), yamlchar.ConformsCharSet(w, sets[k]); got != want {
				v.fail("cached-answer", "token %q asked for sets %v: answer %d (set %d) is %v, the predicate says %v", w, order, i, sets[k], got, want)
				return false
			}
		}
		v.eval(fmt.Sprintf("%q %v", w, order), len(seen) >= 3)
		return true
	}
	for _, w := range words {
		for a := range sets {
			for b := range sets {
				for c := range sets {
					if !check(w, []int{a, b, c, a, b, c}) {
						return
					}
				}
			}
		}
	}
	for v.more() {
		w := words[v.rng.Intn(len(words))] + words[v.rng.Intn(len(words))]
		order := make([]int, 3+v.rng.Intn(14))
		for i := range order {
			order[i] = v.rng.Intn(len(sets))
		}
		if !v.guard("panic", w, func() { check(w, order) }) {
			return
		}
	}
}
