package schema_test

import (
	"encoding/base64"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/KSpaceer/yamly/engines/pkg/schema"
)

func sDigits(s, set string) bool {
	for _, c := range s {
		if !strings.ContainsRune(set, c) {
			return false
		}
	}
	return s != ""
}

const sDec = "0123456789"

func sUnsigned(s string) bool {
	if r, ok := strings.CutPrefix(s, "0o"); ok {
		return sDigits(r, "01234567")
	}
	if r, ok := strings.CutPrefix(s, "0x"); ok {
		return sDigits(r, sDec+"abcdefABCDEF")
	}
	return sDigits(strings.TrimPrefix(s, "+"), sDec)
}

func sInteger(s string) bool {
	if r, ok := strings.CutPrefix(s, "-"); ok {
		return sDigits(r, sDec)
	}
	return sUnsigned(s)
}

func sInf(s string) (int, bool) {
	sign := 1
	if s != "" && (s[0] == '-' || s[0] == '+') {
		if s[0] == '-' {
			sign = -1
		}
		s = s[1:]
	}
	return sign, s == ".inf" || s == ".Inf" || s == ".INF"
}

func sNaN(s string) bool { return s == ".nan" || s == ".NaN" || s == ".NAN" }

func sNumber(s string) bool {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	i := strings.IndexAny(s, "eE")
	if i >= 0 {
		e := s[i+1:]
		if e != "" && (e[0] == '-' || e[0] == '+') {
			e = e[1:]
		}
		if !sDigits(e, sDec) {
			return false
		}
		s = s[:i]
	}
	a, b, dot := strings.Cut(s, ".")
	if !dot {
		return sDigits(a, sDec)
	}
	if a == "" {
		return sDigits(b, sDec)
	}
	return sDigits(a, sDec) && (b == "" || sDigits(b, sDec))
}

func sText(v *verifRun, s string) {
	v.guard("schema", s, func() {
		null := map[string]bool{"null": true, "Null": true, "NULL": true, "~": true, "": true}[s]
		tr := map[string]bool{"true": true, "True": true, "TRUE": true}[s]
		fa := map[string]bool{"false": true, "False": true, "FALSE": true}[s]
		sign, inf := sInf(s)
		v.eval(s, null || tr || fa || inf || sNaN(s) || sInteger(s) || sNumber(s))
		if schema.IsNull(s) != null {
			v.fail("null", "IsNull(%q) is %v", s, schema.IsNull(s))
		}
		if schema.IsBoolean(s) != (tr || fa) {
			v.fail("boolean", "IsBoolean(%q) is %v", s, schema.IsBoolean(s))
		}
		if b, err := schema.ToBoolean(s); b != tr || (err == nil) != (tr || fa) {
			v.fail("boolean", "ToBoolean(%q) is %v, %v", s, b, err)
		}
		if schema.IsInteger(s) != sInteger(s) {
			v.fail("integer", "IsInteger(%q) is %v", s, schema.IsInteger(s))
		}
		if schema.IsUnsignedInteger(s) != sUnsigned(s) {
			v.fail("unsigned", "IsUnsignedInteger(%q) is %v", s, schema.IsUnsignedInteger(s))
		}
		if want := sNumber(s) || inf || sNaN(s); schema.IsFloat(s) != want {
			v.fail("float", "IsFloat(%q) is %v", s, schema.IsFloat(s))
		}
		f, err := schema.ToFloat(s, 64)
		switch {
		case inf:
			if err != nil || !math.IsInf(f, sign) {
				v.fail("float-value", "ToFloat(%q) is %v, %v", s, f, err)
			}
		case sNaN(s):
			if err != nil || !math.IsNaN(f) {
				v.fail("float-value", "ToFloat(%q) is %v, %v", s, f, err)
			}
		case sNumber(s):
			want, werr := strconv.ParseFloat(s, 64)
			if f != want || (err == nil) != (werr == nil) {
				v.fail("float-value", "ToFloat(%q) is %v, %v", s, f, err)
			}
		}
		_, terr := schema.ToTimestamp(s)
		if schema.IsTimestamp(s) != (terr == nil) {
			v.fail("timestamp", "IsTimestamp(%q) is %v but ToTimestamp gives %v", s, schema.IsTimestamp(s), terr)
		}
		// decimal texts without superfluous zeros, and prefixed ones, denote their value
		t := strings.TrimLeft(s, "+-")
		if sInteger(s) && (len(t) == 1 || t[0] != '0' || t[1] == 'x' || t[1] == 'o') {
			want, _ := new(big.Int).SetString(s, 0)
			for _, bits := range []int{8, 16, 32, 64} {
				n, err := schema.ToInteger(s, bits)
				lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
				fits := want.Cmp(lim) < 0 && want.Cmp(new(big.Int).Neg(lim)) >= 0
				if (err == nil) != fits || fits && big.NewInt(n).Cmp(want) != 0 {
					v.fail("integer-value", "ToInteger(%q, %d) is %d, %v", s, bits, n, err)
				}
				if !sUnsigned(s) || s[0] == '+' {
					continue
				}
				u, err := schema.ToUnsignedInteger(s, bits)
				fits = want.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(bits))) < 0
				if (err == nil) != fits || fits && new(big.Int).SetUint64(u).Cmp(want) != 0 {
					v.fail("unsigned-value", "ToUnsignedInteger(%q, %d) is %d, %v", s, bits, u, err)
				}
			}
		}
	})
}

func TestVerifSchema(t *testing.T) {
	v := verifStart(t, "a text of one of the kinds, or a converted value")
	words := []string{"null", "Null", "NULL", "~", "", "true", "True", "TRUE", "false", "False", "FALSE", "yes", "no", "on", "off", "nULL", "tRUE", ".inf", ".Inf", ".INF", ".iNF", "inf", ".nan", ".NaN", ".NAN", ".Nan", "nan", "-.nan", "<<", "2020-01-02", "2020-1-2", "2020-01-02T03:04:05Z", "2020-01-02t03:04:05.5-07:00", "2020-1-2 3:4:5.25", "2020-13-01", "2020-02-30", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e400", "0x7fffffffffffffff", "0xffffffffffffffff", "0o1777777777777777777777", "127", "128", "-128", "-129", "255", "256"}
	for _, w := range words {
		for _, p := range []string{"", "+", "-", " ", "x", "\n", "0", "é"} {
			sText(v, p+w)
			sText(v, w+p)
		}
	}
	alpha := []rune("0178aofx.eE+-_ \nF9é")
	var walk func(s string, n int)
	walk = func(s string, n int) {
		sText(v, s)
		if n > 0 {
			for _, c := range alpha {
				walk(s+string(c), n-1)
			}
		}
	}
	walk("", 3)
	// instants the layouts are documented to read
	base := time.Date(2001, 12, 14, 21, 59, 43, 100000000, time.UTC)
	for s, want := range map[string]time.Time{
		"2001-12-14T21:59:43.1Z":       base,
		"2001-12-14t21:59:43.1+00:00":  base,
		"2001-12-14t16:59:43.10-05:00": base,
		"2001-12-14 21:59:43.1":        base,
		"2001-12-14":                   time.Date(2001, 12, 14, 0, 0, 0, 0, time.UTC),
		"2001-1-4":                     time.Date(2001, 1, 4, 0, 0, 0, 0, time.UTC),
		"2001-1-4T5:6:7Z":              time.Date(2001, 1, 4, 5, 6, 7, 0, time.UTC),
	} {
		got, err := schema.ToTimestamp(s)
		v.eval(s, true)
		if err != nil || !got.Equal(want) {
			v.fail("timestamp-value", "ToTimestamp(%q) is %v, %v", s, got, err)
		}
	}
	ints := []int64{0, 1, -1, 7, 8, 9, 10, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32}
	floats := []float64{0, 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e21, 1e-7, 123456789, math.Copysign(0, -1), 1.7976931348623157e308, 5e-324}
	for i := 0; v.more(); i++ {
		var n int64
		var f float64
		if i < len(ints) {
			n = ints[i]
		} else {
			n = int64(v.rng.Uint64()) >> uint(v.rng.Intn(64))
		}
		if i < len(floats) {
			f = floats[i]
		} else {
			f = math.Float64frombits(v.rng.Uint64())
		}
		v.guard("schema", strconv.FormatInt(n, 10), func() {
			s := schema.FromInteger(n)
			v.eval(s, true)
			if got, err := schema.ToInteger(s, 64); err != nil || got != n || !schema.IsInteger(s) {
				v.fail("integer-back", "%d is written %q, read %d, %v", n, s, got, err)
			}
			s = schema.FromUnsignedInteger(uint64(n))
			if got, err := schema.ToUnsignedInteger(s, 64); err != nil || got != uint64(n) || !schema.IsUnsignedInteger(s) {
				v.fail("unsigned-back", "%d is written %q, read %d, %v", uint64(n), s, got, err)
			}
			s = schema.FromFloat(f)
			got, err := schema.ToFloat(s, 64)
			if err != nil || !schema.IsFloat(s) || math.Float64bits(got) != math.Float64bits(f) && !(math.IsNaN(f) && math.IsNaN(got)) {
				v.fail("float-back", "%v is written %q, read %v, %v", f, s, got, err)
			}
			for _, b := range []bool{true, false} {
				s = schema.FromBoolean(b)
				if got, err := schema.ToBoolean(s); err != nil || got != b || !schema.IsBoolean(s) {
					v.fail("boolean-back", "%v is written %q, read %v, %v", b, s, got, err)
				}
			}
			zone := time.UTC
			if i%3 == 1 {
				zone = time.FixedZone("", (v.rng.Intn(24*60)-12*60)*60)
			}
			ts := time.Date(v.rng.Intn(9998)+1, time.Month(1+v.rng.Intn(12)), 1+v.rng.Intn(28), v.rng.Intn(24), v.rng.Intn(60), v.rng.Intn(60), []int{0, 1, 999999999, 500000000, 120, v.rng.Intn(1000000000)}[v.rng.Intn(6)], zone)
			s = schema.FromTimestamp(ts)
			if got, err := schema.ToTimestamp(s); err != nil || !got.Equal(ts) || !schema.IsTimestamp(s) {
				v.fail("timestamp-back", "%v is written %q, read %v, %v", ts, s, got, err)
			}
			raw := make([]byte, v.rng.Intn(20))
			v.rng.Read(raw)
			b := base64.StdEncoding.EncodeToString(raw)
			if !schema.IsBinary(b) {
				v.fail("binary", "IsBinary(%q) is false", b)
			}
			if len(b) > 4 {
				k := 4 * v.rng.Intn(len(b)/4)
				if sp := b[:k] + []string{" ", "\n", "\t "}[v.rng.Intn(3)] + b[k:]; !schema.IsBinary(sp) {
					v.fail("binary", "IsBinary(%q) is false", sp)
				}
				j := v.rng.Intn(len(b))
				for _, bad := range []string{b[:j] + "*" + b[j+1:], b[:len(b)-1], b + "=", "=" + b, b + " " + b[1:]} {
					if _, err := base64.StdEncoding.DecodeString(bad); err != nil && schema.IsBinary(bad) && !strings.Contains(bad, " ") {
						v.fail("binary", "IsBinary(%q) is true", bad)
					}
				}
			}
			// a random text near the kinds
			rs := []rune(words[v.rng.Intn(len(words))] + words[v.rng.Intn(len(words))])
			for k := v.rng.Intn(3); k > 0 && len(rs) > 0; k-- {
				rs[v.rng.Intn(len(rs))] = alpha[v.rng.Intn(len(alpha))]
			}
			sText(v, string(rs))
		})
	}
}
