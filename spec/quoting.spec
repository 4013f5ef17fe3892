package strings

trusted ReplaceAll
  pure
  ensures [doubling] arg1 == "'" && arg2 == "''" ==> result == dbl(arg0, len(arg0))
  reason strings.ReplaceAll(s, "'", "''") doubles every single quote (standard library documentation)

package github.com/KSpaceer/yamly/engines/yayamls/yamlchar

// ---- single quotes ----
recfun dbl(s string, k int) string = k <= 0 ? "" : (s[k-1] == 39 ? (dbl(s, k-1) ++ unit(39)) ++ unit(39) : dbl(s, k-1) ++ unit(s[k-1]))
recfun undbl(s string, i int) string = i >= len(s) ? "" : (s[i] == 39 ? unit(39) ++ undbl(s, i+2) : unit(s[i]) ++ undbl(s, i+1))

func ConvertToYAMLSingleQuotedString
  property C07
  pure
  ensures [ok] r1 == nil
  ensures [doubles] result == dbl(s, len(s))

func ConvertFromYAMLSingleQuotedString
  property C07
  ensures [accepts] (r1 == nil) <==> singleFrom(s, 0)
  ensures [undoubles] r1 == nil ==> result == undbl(s, 0)
  invariant 1 hasPrecedingQuote ==> $k >= 1 && s[$k-1] == 39
  invariant 1 singleFrom(s, 0) <==> singleFrom(s, hasPrecedingQuote ? $k-1 : $k)
  invariant 1 undbl(s, 0) == content(sb) ++ undbl(s, hasPrecedingQuote ? $k-1 : $k)

// sequence facts
lemma prefixChar(a string, b string, c int)
  property C07, C06
  requires prefix(a ++ unit(c), b)
  ensures [at] len(a) < len(b) && b[len(a)] == c

lemma prefixChar2(a string, b string, c int, d int)
  property C07, C06
  requires prefix((a ++ unit(c)) ++ unit(d), b)
  use prefixChar(a ++ unit(c), b, d)
  ensures [at] len(a) + 1 < len(b) && b[len(a)] == c && b[len(a)+1] == d

lemma prefixDrop2(a string, b string, c int, d int)
  property C06
  requires prefix((a ++ unit(c)) ++ unit(d), b)
  ensures [drop] prefix(a, b)

lemma tailStep(s string, k int)
  property C07, C06
  requires 0 <= k && k < len(s)
  ensures [cons] s[k:len(s)] == unit(s[k]) ++ s[k+1:len(s)]

// dbl(s, n-j) is a prefix of dbl(s, n)
lemma dblPrefix(s string, n int, j int)
  property C07
  induction j
  requires 0 <= j && j <= n && n <= len(s)
  ensures [prefix] prefix(dbl(s, n-j), dbl(s, n))

lemma dblStep(s string, n int, k int)
  property C07
  requires 0 <= k && k < n && n <= len(s)
  use dblPrefix(s, n, n-k-1)
  use prefixChar(dbl(s, k), dbl(s, n), s[k])
  use prefixChar2(dbl(s, k), dbl(s, n), 39, 39)
  ensures [char] len(dbl(s, k)) < len(dbl(s, n)) && dbl(s, n)[len(dbl(s, k))] == s[k]
  ensures [pair] s[k] == 39 ==> len(dbl(s, k)) + 1 < len(dbl(s, n)) && dbl(s, n)[len(dbl(s, k)) + 1] == 39
  ensures [advance] len(dbl(s, k+1)) == len(dbl(s, k)) + (s[k] == 39 ? 2 : 1)

lemma dblBack(s string, n int, j int)
  property C07
  induction j
  requires 0 <= j && j <= n && n == len(s)
  use dblStep(s, n, n-j)
  use tailStep(s, n-j)
  ensures [suffix] undbl(dbl(s, n), len(dbl(s, n-j))) == s[n-j:n]
  ensures [wellformed] (forall i :: 0 <= i && i < n ==> json(s[i])) ==> singleFrom(dbl(s, n), len(dbl(s, n-j)))

lemma singleRoundTrip(s string)
  property C07
  use dblBack(s, len(s), len(s))
  ensures [round-trip] undbl(dbl(s, len(s)), 0) == s
  ensures [accepted] (forall i :: 0 <= i && i < len(s) ==> json(s[i])) ==> singleFrom(dbl(s, len(s)), 0)

// ---- double quotes ----
pred hexv(c int) int = c <= 57 ? c - 48 : c <= 70 ? c - 55 : c - 87
pred h2(s string, i int) int = hexv(s[i])*16 + hexv(s[i+1])
pred h4(s string, i int) int = h2(s, i)*256 + h2(s, i+2)
pred h8(s string, i int) int = h4(s, i)*65536 + h4(s, i+4)
pred hex2(s string, i int) bool = hex(s[i]) && hex(s[i+1])
pred hex4(s string, i int) bool = hex2(s, i) && hex2(s, i+2)
pred hex8(s string, i int) bool = hex4(s, i) && hex4(s, i+4)
pred validRune(x int) bool = 0 <= x && x <= 1114111 && !(55296 <= x && x <= 57343)
pred scalar(x int) int = validRune(x) ? x : 65533

// length and value of an escape sequence at i (after the backslash); length 0: ill-formed
pred eLen(s string, i int) int = i >= len(s) ? 0
| : s[i] == 'x' ? (i+2 < len(s) && hex2(s, i+1) ? 3 : 0)
| : s[i] == 'u' ? (i+4 < len(s) && hex4(s, i+1) ? 5 : 0)
| : s[i] == 'U' ? (i+8 < len(s) && hex8(s, i+1) && hexv(s[i+1]) < 8 ? 9 : 0)
| : (simpleEsc(s[i]) ? 1 : 0)
pred eVal1(c int) int = c == '0' ? 0 : c == 'a' ? 7 : c == 'b' ? 8 : c == 't' ? 9 : c == 9 ? 9 : c == 'n' ? 10 : c == 'v' ? 11 : c == 'f' ? 12 : c == 'r' ? 13
| : c == 'e' ? 27 : c == 'N' ? 133 : c == '_' ? 160 : c == 'L' ? 8232 : c == 'P' ? 8233 : c
pred eVal(s string, i int) int = s[i] == 'x' ? h2(s, i+1) : s[i] == 'u' ? scalar(h4(s, i+1)) : s[i] == 'U' ? scalar(h8(s, i+1)) : eVal1(s[i])

// acceptance, and the text a double-quoted body stands for
recfun dqOK(s string, i int) bool = i >= len(s) ? true : s[i] == 92 ? (eLen(s, i+1) > 0 && dqOK(s, i+1+eLen(s, i+1))) : (s[i] != '"' && json(s[i]) && dqOK(s, i+1))
recfun unq(s string, i int) string = i >= len(s) ? "" : s[i] == 92 ? unit(eVal(s, i+1)) ++ unq(s, i+1+eLen(s, i+1)) : unit(s[i]) ++ unq(s, i+1)

// escaping
pred short(r int) bool = r == 0 || (7 <= r && r <= 13) || r == 27 || r == '"' || r == 92 || r == 133 || r == 160 || r == 8232 || r == 8233
pred code(r int) int = r == 0 ? '0' : r == 7 ? 'a' : r == 8 ? 'b' : r == 9 ? 't' : r == 10 ? 'n' : r == 11 ? 'v' : r == 12 ? 'f' : r == 13 ? 'r'
| : r == 27 ? 'e' : r == 133 ? 'N' : r == 160 ? '_' : r == 8232 ? 'L' : r == 8233 ? 'P' : r
pred hexd(x int) int = x < 10 ? x + 48 : x + 87
pred ctrl(r int) bool = !short(r) && 0 <= r && r < 32
recfun esc(s string, k int) string = k <= 0 ? "" : short(s[k-1]) ? (esc(s, k-1) ++ unit(92)) ++ unit(code(s[k-1]))
| : ctrl(s[k-1]) ? (((esc(s, k-1) ++ unit(92)) ++ unit('x')) ++ unit(hexd(s[k-1] / 16))) ++ unit(hexd(s[k-1] % 16))
| : esc(s, k-1) ++ unit(s[k-1])

package strconv

trusted QuoteRuneToASCII
  pure
  ensures [control] 0 <= arg0 && arg0 < 32 && !(7 <= arg0 && arg0 <= 13) ==> result == ((((unit(39) ++ unit(92)) ++ unit('x')) ++ unit(hexd(arg0 / 16))) ++ unit(hexd(arg0 % 16))) ++ unit(39) && blen(result) == 6
  reason strconv.QuoteRuneToASCII renders a control character without a short escape as '\xHH' (documentation of strconv.Quote)

trusted ParseInt
  pure
  option det
  ensures [two] arg1 == 16 && arg2 == 32 && len(arg0) == 2 && hex2(arg0, 0) ==> r1 == nil && result == h2(arg0, 0)
  ensures [four] arg1 == 16 && arg2 == 32 && len(arg0) == 4 && hex4(arg0, 0) ==> r1 == nil && result == h4(arg0, 0)
  ensures [eight] arg1 == 16 && arg2 == 32 && len(arg0) == 8 && hex8(arg0, 0) ==> ((r1 == nil) <==> hexv(arg0[0]) < 8) && (r1 == nil ==> result == h8(arg0, 0))
  reason strconv.ParseInt with base 16 and 32 bits: value of the hexadecimal digits, range error at 2^31 (documentation)

package github.com/KSpaceer/yamly/engines/yayamls/yamlchar

func ConvertToYAMLDoubleQuotedString
  property C06
  ensures [ok] r1 == nil
  ensures [escapes] result == esc(s, len(s))
  invariant 1 content(sb) == esc(s, $k)

func unescapeCharacter
  requires 0 <= i && i <= len(runes)
  requires forall j :: 0 <= j && j < len(runes) ==> 0 <= runes[j] && runes[j] <= 1114111
  ensures [accepts] (r2 == nil) <==> eLen(runes, i) > 0
  ensures [value] r2 == nil ==> r1 == i + eLen(runes, i) && r0 == eVal(runes, i)

func ConvertFromYAMLDoubleQuotedString
  property C06
  ensures [accepts] (r1 == nil) <==> dqOK(s, 0)
  ensures [unescapes] r1 == nil ==> result == unq(s, 0)
  invariant 1 i >= 0 && i <= len(s) && len(runes) == len(s) && n == len(s)
  invariant 1 forall j :: 0 <= j && j < len(s) ==> runes[j] == s[j]
  invariant 1 dqOK(s, 0) <==> dqOK(s, i)
  invariant 1 unq(s, 0) == content(sb) ++ unq(s, i)
  opaque dqOK unq
  unfold 1 dqOK(s, i)
  unfold 1 unq(s, i)

lemma escPrefix(s string, n int, j int)
  property C06
  induction j
  requires 0 <= j && j <= n && n <= len(s)
  ensures [prefix] prefix(esc(s, n-j), esc(s, n))

lemma escStep(s string, n int, k int)
  property C06
  requires 0 <= k && k < n && n <= len(s)
  requires forall i :: 0 <= i && i < n ==> validRune(s[i])
  use escPrefix(s, n, n-k-1)
  use prefixChar(esc(s, k), esc(s, n), s[k])
  use prefixChar2(esc(s, k), esc(s, n), 92, code(s[k]))
  use prefixDrop2((esc(s, k) ++ unit(92)) ++ unit('x'), esc(s, n), hexd(s[k] / 16), hexd(s[k] % 16))
  use prefixChar2(esc(s, k), esc(s, n), 92, 'x')
  use prefixChar2((esc(s, k) ++ unit(92)) ++ unit('x'), esc(s, n), hexd(s[k] / 16), hexd(s[k] % 16))
  ensures [plain] !short(s[k]) && !ctrl(s[k]) ==> len(esc(s, k)) < len(esc(s, n)) && esc(s, n)[len(esc(s, k))] == s[k] && len(esc(s, k+1)) == len(esc(s, k)) + 1
  ensures [short] short(s[k]) ==> len(esc(s, k)) + 1 < len(esc(s, n)) && esc(s, n)[len(esc(s, k))] == 92 && esc(s, n)[len(esc(s, k))+1] == code(s[k]) && len(esc(s, k+1)) == len(esc(s, k)) + 2
  ensures [ctrl-len] ctrl(s[k]) ==> len(esc(s, k)) + 3 < len(esc(s, n)) && len(esc(s, k+1)) == len(esc(s, k)) + 4
  ensures [ctrl-head] ctrl(s[k]) ==> esc(s, n)[len(esc(s, k))] == 92 && esc(s, n)[len(esc(s, k))+1] == 'x'
  ensures [ctrl-hex] ctrl(s[k]) ==> esc(s, n)[len(esc(s, k))+2] == hexd(s[k] / 16) && esc(s, n)[len(esc(s, k))+3] == hexd(s[k] % 16)

lemma escPiece(s string, n int, k int)
  property C06
  requires 0 <= k && k < n && n <= len(s)
  requires forall i :: 0 <= i && i < n ==> validRune(s[i])
  use escStep(s, n, k)
  ensures [short] short(s[k]) ==> eLen(esc(s, n), len(esc(s, k)) + 1) == 1 && eVal(esc(s, n), len(esc(s, k)) + 1) == s[k]
  ensures [ctrl] ctrl(s[k]) ==> eLen(esc(s, n), len(esc(s, k)) + 1) == 3 && eVal(esc(s, n), len(esc(s, k)) + 1) == s[k]
  ensures [plain] !short(s[k]) && !ctrl(s[k]) ==> s[k] != 92 && s[k] != '"' && json(s[k])

lemma escBack(s string, n int, j int)
  property C06
  induction j
  requires 0 <= j && j <= n && n == len(s)
  requires forall i :: 0 <= i && i < n ==> validRune(s[i])
  use escStep(s, n, n-j)
  use escPiece(s, n, n-j)
  use tailStep(s, n-j)
  opaque dqOK unq
  unfold dqOK(esc(s, n), len(esc(s, n-j)))
  unfold unq(esc(s, n), len(esc(s, n-j)))
  ensures [suffix] unq(esc(s, n), len(esc(s, n-j))) == s[n-j:n]
  ensures [wellformed] dqOK(esc(s, n), len(esc(s, n-j)))

lemma doubleRoundTrip(s string)
  property C06
  requires forall i :: 0 <= i && i < len(s) ==> validRune(s[i])
  use escBack(s, len(s), len(s))
  ensures [round-trip] unq(esc(s, len(s)), 0) == s
  ensures [accepted] dqOK(esc(s, len(s)), 0)
