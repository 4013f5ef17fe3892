package github.com/KSpaceer/yamly/engines/yayamls/yamlchar

pred digit(r int) bool = 48 <= r && r <= 57
pred hex(r int) bool = digit(r) || (65 <= r && r <= 70) || (97 <= r && r <= 102)
pred letter(r int) bool = (65 <= r && r <= 90) || (97 <= r && r <= 122)
pred flowInd(r int) bool = r == ',' || r == '[' || r == ']' || r == '{' || r == '}'
pred json(r int) bool = r == 9 || (32 <= r && r <= 1114111)
pred tagOnly(r int) bool = r == '#' || r == ';' || r == '/' || r == '?' || r == ':' || r == '@' || r == '&' || r == '=' || r == '+' || r == '$' || r == '_' || r == '.' || r == '~' || r == '*' || r == 39
pred uriOnly(r int) bool = tagOnly(r) || r == '-' || r == '!'
pred simpleEsc(r int) bool = r == '0' || r == 'a' || r == 'b' || r == 't' || r == 9 || r == 'n' || r == 'v' || r == 'f' || r == 'r' || r == 'e' || r == 32 || r == '"' || r == '/' || r == 92 || r == 'N' || r == '_' || r == 'L' || r == 'P'

recfun uriFrom(s string, i int) bool = i >= len(s) ? true : s[i] == '%' ? (i+2 < len(s) && hex(s[i+1]) && hex(s[i+2]) && uriFrom(s, i+3)) : ((digit(s[i]) || letter(s[i]) || flowInd(s[i]) || uriOnly(s[i])) && uriFrom(s, i+1))
recfun tagFrom(s string, i int) bool = i >= len(s) ? true : s[i] == '%' ? (i+2 < len(s) && hex(s[i+1]) && hex(s[i+2]) && tagFrom(s, i+3)) : ((digit(s[i]) || letter(s[i]) || tagOnly(s[i])) && tagFrom(s, i+1))
recfun singleFrom(s string, i int) bool = i >= len(s) ? true : s[i] == 39 ? (i+1 < len(s) && s[i+1] == 39 && singleFrom(s, i+2)) : (json(s[i]) && singleFrom(s, i+1))
recfun doubleFrom(s string, i int) bool = i >= len(s) ? true : s[i] == 92 ? (escLen(s, i+1) > 0 && doubleFrom(s, i+1+escLen(s, i+1))) : (s[i] != '"' && json(s[i]) && doubleFrom(s, i+1))

// length of a valid escape sequence starting after the backslash (0: none)
pred escLen(s string, i int) int = i >= len(s) ? 0
| : s[i] == 'x' ? (i+2 < len(s) && hex(s[i+1]) && hex(s[i+2]) ? 3 : 0)
| : s[i] == 'u' ? (i+4 < len(s) && hex(s[i+1]) && hex(s[i+2]) && hex(s[i+3]) && hex(s[i+4]) ? 5 : 0)
| : s[i] == 'U' ? (i+8 < len(s) && hex(s[i+1]) && hex(s[i+2]) && hex(s[i+3]) && hex(s[i+4]) && hex(s[i+5]) && hex(s[i+6]) && hex(s[i+7]) && hex(s[i+8]) ? 9 : 0)
| : (simpleEsc(s[i]) ? 1 : 0)

func IsDecimal
  property C05
  pure
  ensures [spec] result <==> (forall i :: 0 <= i && i < len(s) ==> digit(s[i]))
  invariant 1 forall i :: 0 <= i && i < $k ==> digit(s[i])

func IsWord
  property C05
  pure
  ensures [spec] result <==> (forall i :: 0 <= i && i < len(s) ==> digit(s[i]) || letter(s[i]) || s[i] == '-')
  invariant 1 forall i :: 0 <= i && i < $k ==> digit(s[i]) || letter(s[i]) || s[i] == '-'

func IsPlainSafeString
  property C05
  pure
  ensures [spec] result <==> (forall i :: 0 <= i && i < len(s) ==> !flowInd(s[i]))
  invariant 1 forall i :: 0 <= i && i < $k ==> !flowInd(s[i])

func IsAnchorString
  property C05
  pure
  ensures [spec] result <==> (forall i :: 0 <= i && i < len(s) ==> !flowInd(s[i]))

func IsURI
  property C05
  pure
  ensures [spec] result <==> uriFrom(s, 0)
  invariant 1 i >= 0 && len(runes) == len(s) && n == len(s)
  invariant 1 forall j :: 0 <= j && j < len(s) ==> runes[j] == s[j]
  invariant 1 uriFrom(s, 0) <==> uriFrom(s, i)

func IsTagString
  property C05
  pure
  ensures [spec] result <==> tagFrom(s, 0)
  invariant 1 i >= 0 && len(runes) == len(s) && n == len(s)
  invariant 1 forall j :: 0 <= j && j < len(s) ==> runes[j] == s[j]
  invariant 1 tagFrom(s, 0) <==> tagFrom(s, i)

func IsSingleQuotedString
  property C05
  pure
  ensures [spec] result <==> singleFrom(s, 0)
  invariant 1 i >= 0 && len(runes) == len(s) && n == len(s)
  invariant 1 forall j :: 0 <= j && j < len(s) ==> runes[j] == s[j]
  invariant 1 singleFrom(s, 0) <==> singleFrom(s, i)

func IsDoubleQuotedString
  property C05
  pure
  ensures [spec] result <==> doubleFrom(s, 0)
  invariant 1 i >= 0 && i <= len(s) && len(runes) == len(s) && n == len(s)
  invariant 1 forall j :: 0 <= j && j < len(s) ==> runes[j] == s[j]
  invariant 1 doubleFrom(s, 0) <==> doubleFrom(s, i)

func ConformsCharSet
  property C05
  pure
  defines result == Conf(s, cst)
  ensures [decimal] cst == 1 ==> (result <==> (forall i :: 0 <= i && i < len(s) ==> digit(s[i])))
  ensures [word] cst == 2 ==> (result <==> (forall i :: 0 <= i && i < len(s) ==> digit(s[i]) || letter(s[i]) || s[i] == '-'))
  ensures [uri] cst == 4 ==> (result <==> uriFrom(s, 0))
  ensures [tag] cst == 8 ==> (result <==> tagFrom(s, 0))
  ensures [anchor] cst == 16 || cst == 32 ==> (result <==> (forall i :: 0 <= i && i < len(s) ==> !flowInd(s[i])))
  ensures [single] cst == 64 ==> (result <==> singleFrom(s, 0))
  ensures [double] cst == 128 ==> (result <==> doubleFrom(s, 0))
