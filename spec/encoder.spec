// The encoder: every insertion reaches the builder once and unchanged; a failed build is never written.
package github.com/KSpaceer/yamly

// what the builder and the writer have been asked so far
ghost var calls(b ref) int
ghost var kindOf(b ref) int
ghost var gotInt(b ref) int64
ghost var gotUint(b ref) uint64
ghost var gotBool(b ref) bool
ghost var gotFloat(b ref) float64
ghost var gotString(b ref) string
ghost var gotTime(b ref) time.Time
ghost var gotErr(b ref) error
ghost var gotBytes(b ref) string
ghost var gotTree(w ref) T
ghost var gotDst(w ref) io.Writer
// what they answer to their i-th call
ghost tree(b ref, i int) T
ghost buildErr(b ref, i int) error
ghost outString(w ref, i int) string
ghost outBytes(w ref, i int) string
ghost outErr(w ref, i int) error

iface TreeBuilder.InsertInteger
  modifies calls(self), kindOf(self), gotInt(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 1 && gotInt(self) == p0
  reason ghost record of the calls the builder receives

func (*encoder).InsertInteger
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotInt(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 1 && gotInt(e.builder) == val

iface TreeBuilder.InsertUnsigned
  modifies calls(self), kindOf(self), gotUint(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 2 && gotUint(self) == p0
  reason ghost record of the calls the builder receives

func (*encoder).InsertUnsigned
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotUint(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 2 && gotUint(e.builder) == val

iface TreeBuilder.InsertBoolean
  modifies calls(self), kindOf(self), gotBool(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 3 && gotBool(self) == p0
  reason ghost record of the calls the builder receives

func (*encoder).InsertBoolean
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotBool(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 3 && gotBool(e.builder) == val

iface TreeBuilder.InsertFloat
  modifies calls(self), kindOf(self), gotFloat(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 4 && gotFloat(self) == p0
  reason ghost record of the calls the builder receives

func (*encoder).InsertFloat
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotFloat(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 4 && gotFloat(e.builder) == val

iface TreeBuilder.InsertString
  modifies calls(self), kindOf(self), gotString(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 5 && gotString(self) == p0
  reason ghost record of the calls the builder receives

func (*encoder).InsertString
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotString(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 5 && gotString(e.builder) == val

iface TreeBuilder.InsertTimestamp
  modifies calls(self), kindOf(self), gotTime(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 6 && gotTime(self) == p0
  reason ghost record of the calls the builder receives

func (*encoder).InsertTimestamp
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotTime(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 6 && gotTime(e.builder) == val

iface TreeBuilder.InsertNull
  modifies calls(self), kindOf(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 7
  reason ghost record of the calls the builder receives

func (*encoder).InsertNull
  property C09
  modifies calls(e.builder), kindOf(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 7

iface TreeBuilder.StartSequence
  modifies calls(self), kindOf(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 8
  reason ghost record of the calls the builder receives

func (*encoder).StartSequence
  property C09
  modifies calls(e.builder), kindOf(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 8

iface TreeBuilder.EndSequence
  modifies calls(self), kindOf(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 9
  reason ghost record of the calls the builder receives

func (*encoder).EndSequence
  property C09
  modifies calls(e.builder), kindOf(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 9

iface TreeBuilder.StartMapping
  modifies calls(self), kindOf(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 10
  reason ghost record of the calls the builder receives

func (*encoder).StartMapping
  property C09
  modifies calls(e.builder), kindOf(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 10

iface TreeBuilder.EndMapping
  modifies calls(self), kindOf(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 11
  reason ghost record of the calls the builder receives

func (*encoder).EndMapping
  property C09
  modifies calls(e.builder), kindOf(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 11

iface TreeBuilder.InsertRaw
  modifies calls(self), kindOf(self), gotBytes(self), gotErr(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 12 && gotBytes(self) == string(p0) && gotErr(self) == p1
  reason ghost record of the calls the builder receives

func (*encoder).InsertRaw
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotBytes(e.builder), gotErr(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 12 && gotBytes(e.builder) == string(data) && gotErr(e.builder) == err

iface TreeBuilder.InsertRawText
  modifies calls(self), kindOf(self), gotBytes(self), gotErr(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 13 && gotBytes(self) == string(p0) && gotErr(self) == p1
  reason ghost record of the calls the builder receives

func (*encoder).InsertRawText
  property C09
  modifies calls(e.builder), kindOf(e.builder), gotBytes(e.builder), gotErr(e.builder)
  ensures [forward] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 13 && gotBytes(e.builder) == string(text) && gotErr(e.builder) == err

iface TreeBuilder.Result
  modifies calls(self), kindOf(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 20 && r0 == tree(self, old(calls(self))) && r1 == buildErr(self, old(calls(self)))
  reason ghost record of the calls the builder receives, and its answers

iface TreeWriter.WriteTo
  modifies calls(self), kindOf(self), gotTree(self), gotDst(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 30 && gotTree(self) == tree && result == outErr(self, old(calls(self))) && gotDst(self) == dst
  reason ghost record of the calls the writer receives, and its answers

iface TreeWriter.WriteString
  modifies calls(self), kindOf(self), gotTree(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 31 && gotTree(self) == tree && r0 == outString(self, old(calls(self))) && r1 == outErr(self, old(calls(self)))
  reason ghost record of the calls the writer receives, and its answers

iface TreeWriter.WriteBytes
  modifies calls(self), kindOf(self), gotTree(self)
  ensures [call] calls(self) == old(calls(self)) + 1 && kindOf(self) == 32 && gotTree(self) == tree && string(r0) == outBytes(self, old(calls(self))) && r1 == outErr(self, old(calls(self)))
  reason ghost record of the calls the writer receives, and its answers

func (*encoder).EncodeTo
  property C09
  requires [two] ref(e.builder) != ref(e.writer)
  modifies calls(e.builder), kindOf(e.builder), calls(e.writer), kindOf(e.writer), gotTree(e.writer), gotDst(e.writer)
  ensures [once] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 20
  ensures [failed] buildErr(e.builder, old(calls(e.builder))) != nil ==> calls(e.writer) == old(calls(e.writer)) && result == buildErr(e.builder, old(calls(e.builder))) 
  ensures [written] buildErr(e.builder, old(calls(e.builder))) == nil ==> calls(e.writer) == old(calls(e.writer)) + 1 && kindOf(e.writer) == 30 && gotTree(e.writer) == tree(e.builder, old(calls(e.builder))) && result == outErr(e.writer, old(calls(e.writer)))  && gotDst(e.writer) == dst

func (*encoder).EncodeToString
  property C09
  requires [two] ref(e.builder) != ref(e.writer)
  modifies calls(e.builder), kindOf(e.builder), calls(e.writer), kindOf(e.writer), gotTree(e.writer), gotDst(e.writer)
  ensures [once] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 20
  ensures [failed] buildErr(e.builder, old(calls(e.builder))) != nil ==> calls(e.writer) == old(calls(e.writer)) && r1 == buildErr(e.builder, old(calls(e.builder))) && r0 == ""
  ensures [written] buildErr(e.builder, old(calls(e.builder))) == nil ==> calls(e.writer) == old(calls(e.writer)) + 1 && kindOf(e.writer) == 31 && gotTree(e.writer) == tree(e.builder, old(calls(e.builder))) && r1 == outErr(e.writer, old(calls(e.writer))) && r0 == outString(e.writer, old(calls(e.writer))) 

func (*encoder).EncodeToBytes
  property C09
  requires [two] ref(e.builder) != ref(e.writer)
  modifies calls(e.builder), kindOf(e.builder), calls(e.writer), kindOf(e.writer), gotTree(e.writer), gotDst(e.writer)
  ensures [once] calls(e.builder) == old(calls(e.builder)) + 1 && kindOf(e.builder) == 20
  ensures [failed] buildErr(e.builder, old(calls(e.builder))) != nil ==> calls(e.writer) == old(calls(e.writer)) && r1 == buildErr(e.builder, old(calls(e.builder))) && len(r0) == 0
  ensures [written] buildErr(e.builder, old(calls(e.builder))) == nil ==> calls(e.writer) == old(calls(e.writer)) + 1 && kindOf(e.writer) == 32 && gotTree(e.writer) == tree(e.builder, old(calls(e.builder))) && r1 == outErr(e.writer, old(calls(e.writer))) && string(r0) == outBytes(e.writer, old(calls(e.writer))) 
