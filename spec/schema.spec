// Classification and conversion of scalar texts.
package math

ghost infinity(sign int) float64
ghost notNumber(f float64) bool

trusted Inf
  pure
  ensures [plus] arg0 >= 0 ==> result == infinity(1)
  ensures [minus] arg0 < 0 ==> result == infinity(-1)
  reason documented

trusted IsInf
  pure
  ensures [plus] arg1 > 0 ==> (result <==> arg0 == infinity(1))
  ensures [minus] arg1 < 0 ==> (result <==> arg0 == infinity(-1))
  ensures [any] arg1 == 0 ==> (result <==> (arg0 == infinity(1) || arg0 == infinity(-1)))
  reason documented

trusted IsNaN
  pure
  ensures [nan] result <==> notNumber(arg0)
  reason documented

trusted NaN
  pure
  option det
  ensures [nan] notNumber(result)
  reason documented; one fixed value

package strconv

trusted FormatBool
  pure
  ensures [word] (arg0 ==> result == "true") && (!arg0 ==> result == "false")
  reason documented

trusted FormatInt
  pure
  option det
  ensures [digits] arg1 == 10 ==> matches(result, "^(?:0|-?[1-9][0-9]*)$")
  ensures [value] arg1 == 10 ==> fst(strconv.ParseInt(result, 0, 64)) == arg0 && snd(strconv.ParseInt(result, 0, 64)) == nil && fst(strconv.ParseInt(result, 10, 64)) == arg0 && snd(strconv.ParseInt(result, 10, 64)) == nil
  reason documented: decimal digits without leading zeros, which ParseInt (base 0 or 10) reads back

trusted FormatUint
  pure
  option det
  ensures [digits] arg1 == 10 ==> matches(result, "^(?:0|[1-9][0-9]*)$")
  ensures [value] arg1 == 10 ==> fst(strconv.ParseUint(result, 0, 64)) == arg0 && snd(strconv.ParseUint(result, 0, 64)) == nil && fst(strconv.ParseUint(result, 10, 64)) == arg0 && snd(strconv.ParseUint(result, 10, 64)) == nil
  reason documented: decimal digits without leading zeros, which ParseUint (base 0 or 10) reads back

trusted FormatFloat
  pure
  option det
  ensures [digits] arg1 == 'e' && arg2 == -1 && !math.notNumber(arg0) && arg0 != math.infinity(1) && arg0 != math.infinity(-1) ==> matches(result, "^-?[0-9](?:\\.[0-9]+)?e[-+][0-9]+$")
  ensures [value] (arg1 == 'e' || arg1 == 'g' || arg1 == 'f') && arg2 == -1 && arg3 == 64 && !math.notNumber(arg0) ==> fst(strconv.ParseFloat(result, 64)) == arg0 && snd(strconv.ParseFloat(result, 64)) == nil
  reason documented: precision -1 gives the digits necessary to represent the value uniquely such that ParseFloat returns it exactly

package time

// the text of an instant to the nanosecond, with its offset
ghost exactText(t time.Time, s string) bool

trusted Time.Format
  pure
  option det
  ensures [nano] arg1 == "2006-01-02T15:04:05.999999999Z07:00" ==> exactText(arg0, result)
  reason names the texts RFC3339Nano gives

package strings

ghost fieldCount(s string) int
ghost fieldAt(s string, i int) string

trusted Fields
  ensures [count] len(result) == fieldCount(arg0)
  ensures [fields] forall i :: 0 <= i && i < len(result) ==> result[i] == fieldAt(arg0, i)
  reason names the fields of a text

package github.com/KSpaceer/yamly/engines/pkg/schema

func IsNull
  property C14
  option open
  pure
  ensures [words] result <==> matches(s, "^(?:null|Null|NULL|~|)$")

func IsBoolean
  property C14
  option open
  pure
  ensures [words] result <==> matches(s, "^(?:true|True|TRUE|false|False|FALSE)$")

func ToBoolean
  property C14
  option open
  ensures [ok] r1 == nil <==> matches(src, "^(?:true|True|TRUE|false|False|FALSE)$")
  ensures [value] result <==> matches(src, "^(?:true|True|TRUE)$")

func FromBoolean
  property C14
  option open
  pure
  ensures [back] IsBoolean(result) && fst(ToBoolean(result)) == val && snd(ToBoolean(result)) == nil

func IsInteger
  property C14
  option open
  pure
  ensures [texts] result <==> matches(s, "^(?:[-+]?[0-9]+|0o[0-7]+|0x[0-9a-fA-F]+)$")

func IsUnsignedInteger
  property C14
  option open
  pure
  ensures [texts] result <==> matches(s, "^(?:[+]?[0-9]+|0o[0-7]+|0x[0-9a-fA-F]+)$")
  ensures [signed] result ==> IsInteger(s)

func FromInteger
  property C14
  option open
  pure
  ensures [back] IsInteger(result) && fst(ToInteger(result, 64)) == val && snd(ToInteger(result, 64)) == nil

func FromUnsignedInteger
  property C14
  option open
  pure
  ensures [back] IsUnsignedInteger(result) && fst(ToUnsignedInteger(result, 64)) == val && snd(ToUnsignedInteger(result, 64)) == nil

func IsFloat
  property C14
  option open
  pure
  ensures [texts] result <==> matches(s, "^(?:[-+]?(?:[.][0-9]+|[0-9]+(?:[.][0-9]*)?)(?:[eE][-+]?[0-9]+)?|[-+]?[.](?:inf|Inf|INF)|[.](?:nan|NaN|NAN))$")
  ensures [null] result ==> !IsNull(s)
  ensures [boolean] result ==> !IsBoolean(s)
  ensures [integer] matches(s, "^[-+]?[0-9]+$") ==> result

func ToFloat
  property C14
  option open
  ensures [plus] matches(src, "^[+]?[.](?:inf|Inf|INF)$") ==> r1 == nil && result == math.infinity(1)
  ensures [minus] matches(src, "^-[.](?:inf|Inf|INF)$") ==> r1 == nil && result == math.infinity(-1)
  ensures [nan] matches(src, "^[.](?:nan|NaN|NAN)$") ==> r1 == nil && math.notNumber(result)
  ensures [number] matches(src, "^[-+]?(?:[.][0-9]+|[0-9]+(?:[.][0-9]*)?)(?:[eE][-+]?[0-9]+)?$") ==> result == fst(strconv.ParseFloat(src, bitSize)) && r1 == snd(strconv.ParseFloat(src, bitSize))

func FromFloat
  property C14
  option open
  requires [finite] val == math.infinity(1) || val == math.infinity(-1) ==> !math.notNumber(val)
  pure
  ensures [kind] IsFloat(result)
  ensures [ok] snd(ToFloat(result, 64)) == nil
  ensures [back] !math.notNumber(val) ==> fst(ToFloat(result, 64)) == val
  ensures [nan] math.notNumber(val) ==> math.notNumber(fst(ToFloat(result, 64)))

func IsBinary
  property C14
  option open
  ensures [parts] result <==> (forall i :: 0 <= i && i < strings.fieldCount(s) ==> matches(strings.fieldAt(s, i), "^(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$"))
  invariant 1 forall j :: 0 <= j && j <= $i ==> matches(strings.fieldAt(s, j), "^(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$")

pred reads(s string, k int) bool = snd(time.Parse(timestampLayouts[k], s)) == nil

func ToTimestamp
  property C14
  option open
  ensures [yes] err == nil ==> (exists k :: 0 <= k && k < len(timestampLayouts) && reads(src, k) && result == fst(time.Parse(timestampLayouts[k], src)))
  ensures [no] err != nil ==> (forall k :: 0 <= k && k < len(timestampLayouts) ==> !reads(src, k))
  invariant 1 forall k :: 0 <= k && k <= $i ==> !reads(src, k)
  invariant 1 $i >= 0 ==> err != nil

func FromTimestamp
  property C14
  option open
  ensures [exact] time.exactText(val, result)
