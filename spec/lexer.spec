// Lossless tokenization and positions.
package unicode/utf8

trusted DecodeRune
  pure
  ensures [size] len(arg0) > 0 ==> 1 <= r1 && r1 <= len(arg0)
  ensures [rune] validRune(r0)
  reason utf8.DecodeRune returns a valid code point (or U+FFFD) and the width 1..4 of its encoding, never more than the input holds

package github.com/KSpaceer/yamly/engines/yayamls/lexer

ghost SR(s ref, i int) rune = S

pred runesOK(st ref) bool = forall i :: SR(st, i) == -1 || validRune(SR(st, i))
pred brk(st ref, i int) bool = SR(st, i) == 10 || (SR(st, i) == 13 && SR(st, i+1) != 10)
recfun row(st ref, i int) int = i <= 0 ? 1 : brk(st, i-1) ? row(st, i-1) + 1 : row(st, i-1)
recfun col(st ref, i int) int = i <= 0 ? 1 : brk(st, i-1) ? 1 : col(st, i-1) + 1

recfun text(st ref, q int, p int) string = p <= q ? "" : text(st, q, p-1) + unit(SR(st, p-1))

// tok is the text of stream elements [q, p), with its positions
pred textOf(st ref, tok token.Token, q int, p int) bool = (tok.Type == token.EOFType ? (len(tok.Origin) == 0 && p == q + 1 && SR(st, q) == -1) : (p > q && len(tok.Origin) == p - q && tok.Origin == text(st, q, p)))
pred shortText(st ref, tok token.Token, q int, p int) bool = tok.Type == token.EOFType ? (len(tok.Origin) == 0 && p == q + 1 && SR(st, q) == -1) : (p > q && p - q <= 3 && (p == q + 1 ==> tok.Origin == unit(SR(st, q))) && (p == q + 2 ==> tok.Origin == unit(SR(st, q)) + unit(SR(st, q+1))) && (p == q + 3 ==> tok.Origin == unit(SR(st, q)) + unit(SR(st, q+1)) + unit(SR(st, q+2))))
pred posOf(st ref, tok token.Token, q int, p int) bool = tok.Start.Row == row(st, q) && tok.Start.Column == col(st, q) && tok.End.Row == row(st, p-1) && tok.End.Column == col(st, p-1)
pred coversText(st ref, tok token.Token, q int, p int) bool = tok.Type != token.UnknownType && textOf(st, tok, q, p)
pred covers(st ref, tok token.Token, q int, p int) bool = tok.Type != token.UnknownType && textOf(st, tok, q, p) && posOf(st, tok, q, p)
pred tlen(tok token.Token) int = tok.Type == token.EOFType ? 1 : len(tok.Origin)
pred tpos(t *Tokenizer) int = pos(&t.ra)
// number of stream elements the tokenizer has handed out
pred emitted(t *Tokenizer) int = pos(&t.ra) - (t.hasPreparedToken ? tlen(t.preparedToken) : 0)
pred tbase(t *Tokenizer) bool = acc(&t.ra) && depth(&t.ra) == 0 && runesOK(t.ra.stream) && len(t.lookaheadBuf) == 0 && arr(t.lookaheadBuf) != arr(t.ra.buf)


pred same(t *Tokenizer) bool = (arr(t.ra.buf) == old(arr(t.ra.buf)) || fresh(t.ra.buf)) && (arr(t.ra.checkpointsStack) == old(arr(t.ra.checkpointsStack)) || fresh(t.ra.checkpointsStack)) && (arr(t.lookaheadBuf) == old(arr(t.lookaheadBuf)) || fresh(t.lookaheadBuf))
pred atPos(t *Tokenizer) bool = t.pos.Row == row(t.ra.stream, tpos(t)) && t.pos.Column == col(t.ra.stream, tpos(t)) - 1

// the rune r = element p-1 was just consumed and t.pos is its position
default (*context) *atching
  property C02, C03
  opaque row col
  option split
  unfold 0 row(t.ra.stream, tpos(t))
  unfold 0 col(t.ra.stream, tpos(t))
  unfold 0 row(t.ra.stream, tpos(t)+1)
  unfold 0 col(t.ra.stream, tpos(t)+1)
  unfold 0 row(t.ra.stream, tpos(t)+2)
  unfold 0 col(t.ra.stream, tpos(t)+2)
  requires [acc] tbase(t)
  requires [rune] tpos(t) > 0 && r == SR(t.ra.stream, tpos(t) - 1)
  requires [pos] t.pos.Row == row(t.ra.stream, tpos(t) - 1) && t.pos.Column == col(t.ra.stream, tpos(t) - 1)
  modifies t.ra.buf, t.ra.saved, t.ra.bufIndicator, t.ra.checkpointsStack, elems(t.ra.buf), elems(t.ra.checkpointsStack), fetched(t.ra.stream), t.pos, t.lookaheadBuf, elems(t.lookaheadBuf), c.escaped, c.ctxStack, elems(c.ctxStack)
  ensures [acc] tbase(t) && t.ra.stream == old(t.ra.stream)
  ensures [arrays] same(t) && (arr(c.ctxStack) == old(arr(c.ctxStack)) || fresh(c.ctxStack))
  ensures [miss] !r1 ==> tpos(t) == old(tpos(t)) && t.pos == old(t.pos) && !brk(t.ra.stream, tpos(t) - 1) && r != -1
  ensures [text@C02] r1 ==> shortText(t.ra.stream, r0, old(tpos(t)) - 1, tpos(t)) && r0.Type != token.UnknownType
  ensures [position@C03] r1 ==> posOf(t.ra.stream, r0, old(tpos(t)) - 1, tpos(t)) && atPos(t)

func (*context).matchSpecialToken
  opaque row col
  option split
  property C02, C03
  requires [acc] tbase(t)
  requires [rune] tpos(t) > 0 && r == SR(t.ra.stream, tpos(t) - 1)
  requires [pos] t.pos.Row == row(t.ra.stream, tpos(t) - 1) && t.pos.Column == col(t.ra.stream, tpos(t) - 1)
  modifies t.ra.buf, t.ra.saved, t.ra.bufIndicator, t.ra.checkpointsStack, elems(t.ra.buf), elems(t.ra.checkpointsStack), fetched(t.ra.stream), t.pos, t.lookaheadBuf, elems(t.lookaheadBuf), c.escaped, c.ctxStack, elems(c.ctxStack)
  ensures [acc] tbase(t) && t.ra.stream == old(t.ra.stream)
  ensures [arrays] same(t) && (arr(c.ctxStack) == old(arr(c.ctxStack)) || fresh(c.ctxStack))
  ensures [miss] !r1 ==> tpos(t) == old(tpos(t)) && t.pos == old(t.pos) && !brk(t.ra.stream, tpos(t) - 1) && r != -1
  ensures [text@C02] r1 ==> shortText(t.ra.stream, r0, old(tpos(t)) - 1, tpos(t)) && r0.Type != token.UnknownType
  ensures [position@C03] r1 ==> posOf(t.ra.stream, r0, old(tpos(t)) - 1, tpos(t)) && atPos(t)

func (*Tokenizer).lookahead
  opaque row col
  requires [acc] tbase(t)
  modifies t.ra.buf, t.ra.saved, t.ra.bufIndicator, t.ra.checkpointsStack, elems(t.ra.buf), elems(t.ra.checkpointsStack), fetched(t.ra.stream), t.lookaheadBuf, elems(t.lookaheadBuf)
  ensures [acc] tbase(t) && t.ra.stream == old(t.ra.stream) && tpos(t) == old(tpos(t))
  ensures [arrays] same(t)
  applies predicate(runes) len(runes) == (count < 0 ? 0 : count) && (forall i :: 0 <= i && i < count ==> runes[i] == SR(old(t.ra.stream), old(tpos(t)) + i))
  invariant 1 acc(&t.ra) && t.ra.stream == old(t.ra.stream) && runesOK(t.ra.stream) && depth(&t.ra) == 1 && cpos(&t.ra, 0) == old(tpos(t))
  invariant 1 len(t.lookaheadBuf) == i && tpos(t) == old(tpos(t)) + i && 0 <= i && (i <= count || i == 0)
  invariant 1 forall k :: 0 <= k && k < i ==> t.lookaheadBuf[k] == SR(t.ra.stream, old(tpos(t)) + k)
  invariant 1 arr(t.lookaheadBuf) != arr(t.ra.buf)
  invariant 1 same(t)

func (*Tokenizer).emitToken
  property C02, C03
  opaque row col text
  unfold 0 text(t.ra.stream, tpos(t), tpos(t))
  unfold 1 text(t.ra.stream, old(tpos(t)), tpos(t)+1)
  unfold 1 text(t.ra.stream, tpos(t), tpos(t))
  unfold 1 text(t.ra.stream, tpos(t), tpos(t)+1)
  unfold 1 text(t.ra.stream, tpos(t), tpos(t)+2)
  unfold 1 text(t.ra.stream, tpos(t), tpos(t)+3)
  unfold 1 row(t.ra.stream, tpos(t))
  unfold 1 col(t.ra.stream, tpos(t))
  unfold 1 row(t.ra.stream, tpos(t)+1)
  unfold 1 col(t.ra.stream, tpos(t)+1)
  requires [acc] tbase(t) && atPos(t) && !t.hasPreparedToken
  modifies t.ra.buf, t.ra.saved, t.ra.bufIndicator, t.ra.checkpointsStack, elems(t.ra.buf), elems(t.ra.checkpointsStack), fetched(t.ra.stream), t.pos, t.lookaheadBuf, elems(t.lookaheadBuf), t.ctx.escaped, t.ctx.ctxStack, elems(t.ctx.ctxStack), t.preparedToken, t.hasPreparedToken, t.lookbehindTok
  ensures [acc] tbase(t) && atPos(t) && t.ra.stream == old(t.ra.stream)
  ensures [text@C02] textOf(t.ra.stream, result, old(tpos(t)), emitted(t)) && result.Type != token.UnknownType
  ensures [prepared@C02] t.hasPreparedToken ==> coversText(t.ra.stream, t.preparedToken, emitted(t), tpos(t))
  ensures [preparedPosition@C03] t.hasPreparedToken ==> posOf(t.ra.stream, t.preparedToken, emitted(t), tpos(t))
  ensures [position@C03] posOf(t.ra.stream, result, old(tpos(t)), emitted(t))
  invariant 1 tbase(t) && t.ra.stream == old(t.ra.stream) && !t.hasPreparedToken
  invariant 1 atPos(t)
  invariant 1 same(t) && (arr(t.ctx.ctxStack) == old(arr(t.ctx.ctxStack)) || fresh(t.ctx.ctxStack))
  invariant 1 tpos(t) == old(tpos(t)) + len(content(originBuilder))
  invariant 1 content(originBuilder) == text(t.ra.stream, old(tpos(t)), tpos(t))
  invariant 1 tok.Type == token.UnknownType ? len(content(originBuilder)) == 0 : (tok.Type == token.StringType && len(content(originBuilder)) > 0)
  invariant 1 tok.Type != token.UnknownType ==> tok.Start.Row == row(t.ra.stream, old(tpos(t))) && tok.Start.Column == col(t.ra.stream, old(tpos(t)))
  invariant 1 len(content(originBuilder)) > 0 ==> !brk(t.ra.stream, tpos(t) - 1)

func (*Tokenizer).Next
  property C02, C03
  opaque row col text
  requires [acc] tbase(t) && atPos(t)
  requires [prepared] t.hasPreparedToken ==> covers(t.ra.stream, t.preparedToken, emitted(t), tpos(t))
  modifies t.ra.buf, t.ra.saved, t.ra.bufIndicator, t.ra.checkpointsStack, elems(t.ra.buf), elems(t.ra.checkpointsStack), fetched(t.ra.stream), t.pos, t.lookaheadBuf, elems(t.lookaheadBuf), t.ctx.escaped, t.ctx.ctxStack, elems(t.ctx.ctxStack), t.preparedToken, t.hasPreparedToken, t.lookbehindTok
  ensures [acc] tbase(t) && atPos(t) && t.ra.stream == old(t.ra.stream)
  ensures [prepared@C02] t.hasPreparedToken ==> coversText(t.ra.stream, t.preparedToken, emitted(t), tpos(t))
  ensures [preparedPosition@C03] t.hasPreparedToken ==> posOf(t.ra.stream, t.preparedToken, emitted(t), tpos(t))
  ensures [lossless@C02] textOf(t.ra.stream, result, old(emitted(t)), emitted(t)) && result.Type != token.UnknownType
  ensures [position@C03] posOf(t.ra.stream, result, old(emitted(t)), emitted(t))

func (*runeStream).Next
  property C02
  modifies r.pos
  requires r.pos >= 0
  ensures [end] old(r.pos) >= len(r.src) ==> result == -1 && r.pos == old(r.pos)
  ensures [advance] old(r.pos) < len(r.src) ==> validRune(result) && old(r.pos) < r.pos && r.pos <= len(r.src)
