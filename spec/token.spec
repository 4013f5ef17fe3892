package github.com/KSpaceer/yamly/engines/yayamls/token

ghost Conf(s string, c yamlchar.CharSetType) bool

pred single(c yamlchar.CharSetType) bool = c == 1 || c == 2 || c == 4 || c == 8 || c == 16 || c == 32 || c == 64 || c == 128
pred okFor(b conformationBitmap, o string, c yamlchar.CharSetType) bool = snd(conformationBitmap.Get(b, c)) ==> fst(conformationBitmap.Get(b, c)) == Conf(o, c)
pred cacheOK(t *Token) bool = forall c yamlchar.CharSetType :: single(c) ==> okFor(t.conformationMap, t.Origin, c)

func conformationBitmap.Set
  property C04
  option bv
  pure
  requires [single] single(cst)
  ensures [read-back] snd(conformationBitmap.Get(result, cst)) && fst(conformationBitmap.Get(result, cst)) == val
  ensures [independent] forall c yamlchar.CharSetType :: single(c) && c != cst ==> snd(conformationBitmap.Get(result, c)) == snd(conformationBitmap.Get(b, c)) && fst(conformationBitmap.Get(result, c)) == fst(conformationBitmap.Get(b, c))

func (*Token).ConformsCharSet
  property C04
  option bv
  requires [single] single(cst)
  requires [inv] cacheOK(t)
  modifies t.conformationMap
  ensures [inv] cacheOK(t)
  ensures [inv] result == Conf(t.Origin, cst)

lemma emptyCache(b conformationBitmap, c yamlchar.CharSetType)
  option bv
  property C04
  requires single(c) && b == 0
  ensures [unknown] !snd(conformationBitmap.Get(b, c))

