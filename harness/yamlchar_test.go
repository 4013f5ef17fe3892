package yamlchar_test

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
)

// Executable form of the contracts in spec/yamlchar.spec.
func xDigit(r rune) bool  { return '0' <= r && r <= '9' }
func xHex(r rune) bool    { return xDigit(r) || 'A' <= r && r <= 'F' || 'a' <= r && r <= 'f' }
func xLetter(r rune) bool { return 'A' <= r && r <= 'Z' || 'a' <= r && r <= 'z' }
func xIn(r rune, set string) bool {
	return strings.ContainsRune(set, r)
}
func xFlow(r rune) bool { return xIn(r, ",[]{}") }
func xJSON(r rune) bool { return r == 9 || 32 <= r && r <= 0x10FFFF }

func xAll(s []rune, f func(rune) bool) bool {
	for _, r := range s {
		if !f(r) {
			return false
		}
	}
	return true
}

func xPct(s []rune, ok func(rune) bool) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+2 >= len(s) || !xHex(s[i+1]) || !xHex(s[i+2]) {
				return false
			}
			i += 2
			continue
		}
		if !ok(s[i]) {
			return false
		}
	}
	return true
}

var xTagOnly = "#;/?:@&=+$_.~*'"

func xURI(s []rune) bool {
	return xPct(s, func(r rune) bool { return xDigit(r) || xLetter(r) || xFlow(r) || xIn(r, xTagOnly+"-!") })
}
func xTag(s []rune) bool {
	return xPct(s, func(r rune) bool { return xDigit(r) || xLetter(r) || xIn(r, xTagOnly) })
}
func xSingle(s []rune) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			if i+1 >= len(s) || s[i+1] != '\'' {
				return false
			}
			i++
		} else if !xJSON(s[i]) {
			return false
		}
	}
	return true
}

var xEsc = map[rune]rune{'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27, ' ': ' ', '"': '"', '/': '/', '\\': '\\', 'N': 0x85, '_': 0xA0, 'L': 0x2028, 'P': 0x2029}

// xDouble: the unescaped text, and whether s is a well-formed body of a double-quoted scalar.
func xDouble(s []rune) (string, bool, bool) {
	var sb strings.Builder
	big := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			i++
			if i >= len(s) {
				return "", false, big
			}
			n := map[rune]int{'x': 2, 'u': 4, 'U': 8}[s[i]]
			if n == 0 {
				r, ok := xEsc[s[i]]
				if !ok {
					return "", false, big
				}
				sb.WriteRune(r)
				continue
			}
			if i+n >= len(s) {
				return "", false, big
			}
			var x int64
			for j := 1; j <= n; j++ {
				if !xHex(s[i+j]) {
					return "", false, big
				}
				d := int64(s[i+j] - '0')
				if s[i+j] >= 'a' {
					d = int64(s[i+j]-'a') + 10
				} else if s[i+j] >= 'A' {
					d = int64(s[i+j]-'A') + 10
				}
				x = x*16 + d
			}
			if x >= 1<<31 {
				big = true
			}
			if x > 0x10FFFF || 0xD800 <= x && x <= 0xDFFF {
				x = utf8.RuneError
			}
			sb.WriteRune(rune(x))
			i += n
		case s[i] == '"' || !xJSON(s[i]):
			return "", false, big
		default:
			sb.WriteRune(s[i])
		}
	}
	return sb.String(), true, big
}

var genRunes = []rune("\x00\x01\x07\t\n\r\x1b\x1f -!\"#$%&'()*+,./0189:;<=>?@AFGZ[\\]^_`abefgnrtuvxzLNPU{|}~\x7f\u0085\u00a0é\u2028\u2029\ufeff\uffff中\U0001F600\U0010FFFF")

func genString(v *verifRun, n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = genRunes[v.rng.Intn(len(genRunes))]
		if v.rng.Intn(12) == 0 {
			rs[i] = rune(v.rng.Intn(0x3000))
		}
		if v.rng.Intn(40) == 0 {
			rs[i] = rune(v.rng.Intn(0x110000))
			if 0xD800 <= rs[i] && rs[i] <= 0xDFFF {
				rs[i] = 'x'
			}
		}
	}
	return string(rs)
}

// genNear: a string biased to be a well-formed quoted body / URI, with occasional damage.
func genNear(v *verifRun) string {
	var sb strings.Builder
	hexd := "0123456789abcdefABCDEF"
	for k := v.rng.Intn(6); k >= 0; k-- {
		switch v.rng.Intn(8) {
		case 0:
			sb.WriteString("''")
		case 1:
			sb.WriteByte('\\')
			sb.WriteByte("0abtnvfre \"/\\N_LP\tqzGs"[v.rng.Intn(22)])
		case 2, 3:
			n := []int{2, 4, 8}[v.rng.Intn(3)]
			sb.WriteByte('\\')
			sb.WriteByte(map[int]byte{2: 'x', 4: 'u', 8: 'U'}[n])
			if n == 8 && v.rng.Intn(3) > 0 {
				sb.WriteString("000")
				n = 5
			}
			for ; n > 0; n-- {
				sb.WriteByte(hexd[v.rng.Intn(len(hexd))])
			}
		case 4:
			sb.WriteByte('%')
			sb.WriteByte(hexd[v.rng.Intn(len(hexd))])
			sb.WriteByte(hexd[v.rng.Intn(len(hexd))])
		case 5:
			sb.WriteString(genString(v, 1))
		default:
			sb.WriteByte("abz09-_."[v.rng.Intn(8)])
		}
	}
	s := sb.String()
	switch v.rng.Intn(6) {
	case 0, 1:
		if len(s) > 0 {
			i := v.rng.Intn(len(s))
			s = s[:i] + s[i+1:]
		}
	case 2, 3: // damage one character, mostly to a neighbour of the hexadecimal digits
		if len(s) > 0 {
			i := v.rng.Intn(len(s))
			c := "gG/:@`'\\%\" u\x7f"
			s = s[:i] + string(c[v.rng.Intn(len(c))]) + s[i+1:]
		}
	}
	if v.rng.Intn(4) == 0 && len(s) > 0 {
		s = s[:v.rng.Intn(len(s))]
	}
	if !utf8.ValidString(s) {
		return "a"
	}
	return s
}

func forStrings(v *verifRun, f func(s string) bool) {
	if !f("") {
		return
	}
	for r := rune(0); r <= 0x10FFFF; r++ {
		if r >= 0x3100 && r%97 != 0 && r < 0xFE00 || r > 0x10000 && r%1021 != 0 && r != 0x10FFFF || 0xD800 <= r && r <= 0xDFFF {
			continue
		}
		if !f(string(r)) {
			return
		}
	}
	for _, a := range genRunes {
		for _, b := range genRunes {
			if !f(string([]rune{a, b})) {
				return
			}
		}
	}
	for v.more() {
		var s string
		switch v.rng.Intn(4) {
		case 0:
			s = genString(v, 1+v.rng.Intn(12))
		default:
			s = genNear(v)
		}
		if !f(s) {
			return
		}
	}
}

func TestVerifPredicates(t *testing.T) {
	v := verifStart(t, "strings of every kind (all code points below U+3100 alone, pairs of indicator characters, mutated escape sequences) against an executable form of the YAML character productions; non-trivial: the string has an escape, a percent sign or a quote;")
	forStrings(v, func(s string) bool {
		rs := []rune(s)
		_, dq, _ := xDouble(rs)
		want := map[yamlchar.CharSetType]bool{
			yamlchar.DecimalCharSetType:      xAll(rs, xDigit),
			yamlchar.WordCharSetType:         xAll(rs, func(r rune) bool { return xDigit(r) || xLetter(r) || r == '-' }),
			yamlchar.URICharSetType:          xURI(rs),
			yamlchar.TagCharSetType:          xTag(rs),
			yamlchar.AnchorCharSetType:       xAll(rs, func(r rune) bool { return !xFlow(r) }),
			yamlchar.PlainSafeCharSetType:    xAll(rs, func(r rune) bool { return !xFlow(r) }),
			yamlchar.SingleQuotedCharSetType: xSingle(rs),
			yamlchar.DoubleQuotedCharSetType: dq,
		}
		ok := v.guard("panic", fmt.Sprintf("%q", s), func() {
			for cst, w := range want {
				if got := yamlchar.ConformsCharSet(s, cst); got != w {
					v.fail("membership", "ConformsCharSet(%q, %d) = %v, the production says %v", s, cst, got, w)
				}
			}
		})
		v.eval(s, strings.ContainsAny(s, `\%'`))
		return ok && len(v.keys) == 0
	})
}

func TestVerifDoubleQuoted(t *testing.T) {
	v := verifStart(t, "every string s: unquote(quote(s)) == s and quote(s) is a well-formed body; every body t: unquote(t) is the text an independent unescaper gives, and is rejected exactly when ill-formed; non-trivial: quoting changed the text, or the text has an escape;")
	forStrings(v, func(s string) bool {
		ok := v.guard("panic", fmt.Sprintf("%q", s), func() {
			q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s)
			if err != nil {
				v.fail("quote-error", "quoting %q: %v", s, err)
				return
			}
			if got, wf, _ := xDouble([]rune(q)); !wf || got != s {
				v.fail("quote", "quoting %q gives %q, which a YAML reader takes as %q (well-formed %v)", s, q, got, wf)
				return
			}
			if back, err := yamlchar.ConvertFromYAMLDoubleQuotedString(q); err != nil || back != s {
				v.fail("round-trip", "%q quoted to %q and unquoted to %q, %v", s, q, back, err)
				return
			}
			v.eval(s, q != s)
			want, wf, big := xDouble([]rune(s))
			got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(s)
			if !big && (err == nil) != wf {
				v.fail("unquote-accept", "unquoting %q: error %v, well-formed %v", s, err, wf)
			} else if err == nil && got != want {
				v.fail("unquote", "unquoting %q gives %q, want %q", s, got, want)
			}
		})
		return ok && len(v.keys) == 0
	})
}

func TestVerifSingleQuoted(t *testing.T) {
	v := verifStart(t, "every string s of printable characters: unquote(quote(s)) == s and quote(s) is a well-formed body; every body t: unquote(t) undoubles the quotes and is rejected exactly when ill-formed; non-trivial: the text has a quote;")
	forStrings(v, func(s string) bool {
		ok := v.guard("panic", fmt.Sprintf("%q", s), func() {
			rs := []rune(s)
			q, err := yamlchar.ConvertToYAMLSingleQuotedString(s)
			if err != nil {
				v.fail("quote-error", "quoting %q: %v", s, err)
				return
			}
			if q != strings.Join(strings.Split(s, "'"), "''") {
				v.fail("quote", "quoting %q gives %q", s, q)
				return
			}
			if xAll(rs, xJSON) {
				if !yamlchar.IsSingleQuotedString(q) {
					v.fail("quote", "quoting %q gives %q, which is not a well-formed body", s, q)
				}
				if back, err := yamlchar.ConvertFromYAMLSingleQuotedString(q); err != nil || back != s {
					v.fail("round-trip", "%q quoted to %q and unquoted to %q, %v", s, q, back, err)
				}
			}
			v.eval(s, strings.Contains(s, "'"))
			got, err := yamlchar.ConvertFromYAMLSingleQuotedString(s)
			if (err == nil) != xSingle(rs) {
				v.fail("unquote-accept", "unquoting %q: error %v, well-formed %v", s, err, xSingle(rs))
			} else if err == nil && got != strings.ReplaceAll(s, "''", "'") {
				v.fail("unquote", "unquoting %q gives %q", s, got)
			}
		})
		return ok && len(v.keys) == 0
	})
}
