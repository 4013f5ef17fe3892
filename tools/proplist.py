NA_PROPS = [
 {"reason": "the code under claim does not exist in /repo: the generator writes Go source at run time, and govc verifies functions of /repo's source, not program texts assembled by templates (tests compile and run a fixed set of generated files)",
  "rec": {"id": "C16", "title": "Generated marshalling code reads back what it wrote",
   "statement": "For every supported struct type and every value of it, unmarshalling what the generated code marshalled yields an equal value, with either engine.",
   "quantifier": {"over": ["inputs"], "text": "every struct type the generator accepts, every value"},
   "why_tests_cant": "The tests generate code for a fixed list of types and compare a few values.",
   "anchors": {"files": ["generator/generator.go", "generator/encoder.go", "generator/decoder.go"], "state": [], "mechanism": [{"name": "generator", "where": "generator/"}], "observe_at": [], "hook_needed": None}}},
 {"reason": "schedules are out of reach: the verification conditions are generated for one goroutine, and no contract language with permissions for Go (such as Gobra's) is installed",
  "rec": {"id": "C17", "title": "Concurrent use of independent readers, writers and parsers is safe",
   "statement": "Parsers, readers, builders and encoders used concurrently by different goroutines, each its own, never influence each other's results although they share package-level buffer pools.",
   "quantifier": {"over": ["schedules"], "text": "every interleaving of goroutines that each use their own object"},
   "why_tests_cant": "The tests are sequential; interference through a pooled object needs a particular interleaving.",
   "anchors": {"files": ["engines/yayamls/parser/parser.go", "engines/yayamls/pkg/cpaccessor/cpaccessor.go"], "state": [], "mechanism": [{"name": "sync.Pool", "where": "engines/yayamls/parser/parser.go"}], "observe_at": [], "hook_needed": None}}},
]
DED = "contract-based deductive verification (VCs from Go SSA, z3/cvc5)"

prop("C01", "Backtracking over the token stream replays it exactly",
 "Whatever the history of reads, checkpoints, rollbacks and commits on a checkpointing reader, each read delivers the element of the underlying stream at the reader's current position, and the stream is never skipped, repeated or reordered. A rollback returns to exactly the position of its own checkpoint and reports the element just before it; enclosing checkpoints are unaffected, also by commits.",
 ["histories", "inputs"], "every stream, every interleaving of next/set checkpoint/rollback/commit (any nesting depth, any length)",
 "The tests replay a few dozen fixed scripts of at most a few nested checkpoints; the guarantee quantifies over all histories, and the defect found (a stale 'saved' element after the buffer is dropped) needs a specific five-step history.",
 [Y+"/pkg/cpaccessor/accessor.go"],
 [("replay buffer, indicator and checkpoint stack", Y+"/pkg/cpaccessor/accessor.go"), ("contracts", "/verif/spec/cpaccessor.spec")],
 [H(Y, "pkg/cpaccessor", "cpaccessor_test", "cpaccessor_test.go", "TestVerifCpaccessor", "concrete replay of the contracts of the accessor (all histories up to 9 operations, random longer ones)")],
 DED, "Proved for every history (representation invariant preserved by every operation; each operation's postcondition names stream positions). Assumes the stream interface delivers an arbitrary fixed sequence; mathematical integers.",
 state=[{"name": "position", "meaning": "number of elements delivered and not rolled back", "where": "bufIndicator, buf"}, {"name": "checkpoint stack", "meaning": "positions to return to", "where": "checkpointsStack"}])

prop("C02", "Tokenization loses, invents and reorders nothing",
 "For every source text (valid UTF-8) the texts of the tokens, concatenated in order up to the first end-of-input token, are exactly the source: no character is dropped, duplicated, reordered or attributed to two tokens, in whatever contexts the tokenizer passes through and however raw mode is switched between tokens. Every token before the end-of-input token has a known type and a non-empty text.",
 ["inputs", "histories"], "every valid UTF-8 text, every sequence of raw mode switches between tokens",
 "The tests compare the token lists of some sixty texts; look-ahead, deferred tokens and context switches interact on arbitrary texts.",
 [Y+"/lexer/tokenizer.go", Y+"/lexer/context.go", Y+"/lexer/rune_stream.go"],
 [("deferred token and string accumulation", Y+"/lexer/tokenizer.go"), ("matching per context", Y+"/lexer/context.go"), ("contracts", "/verif/spec/lexer.spec")],
 [H(Y, "lexer", "lexer_test", "lexer_test.go", "TestVerifLossless", "concrete replay of the lossless-tokenization contract, and the initial state set up by the constructor", 6000, 60000)],
 DED, "Proved for every state of the tokenizer and every stream: each emitted token's text is the stream from the previous token's end to its own end (representation invariant over the deferred token, look-ahead restores the position). The constructor and the UTF-8 decoding of the stream (utf8.DecodeRune trusted) are covered by the concrete run only.",
 bounded="initial state established by NewTokenizer; correspondence between the rune stream and the bytes of the source")

prop("C03", "Token positions are the exact rows and columns of the source",
 "For every source text (valid UTF-8) the start and end recorded in each token up to the first end-of-input token are the row and column (1-based, in characters) of its first and last character; rows advance after a line feed, after a carriage return not followed by a line feed, and after the pair, which belongs to one token. The end-of-input token stands right after the last character.",
 ["inputs", "histories"], "every valid UTF-8 text, every sequence of raw mode switches between tokens",
 "The tests compare positions for some texts only and mostly on one line; error messages and later stages rely on them for all.",
 [Y+"/lexer/tokenizer.go", Y+"/lexer/context.go"],
 [("running position", Y+"/lexer/tokenizer.go"), ("multi-character tokens and line breaks", Y+"/lexer/context.go"), ("contracts", "/verif/spec/lexer.spec")],
 [H(Y, "lexer", "lexer_test", "lexer_test.go", "TestVerifPositions", "concrete replay of the position contract, and the initial state set up by the constructor", 6000, 60000)],
 DED, "Proved for every state of the tokenizer and every stream, over recursive definitions of row and column; the token texts the columns are counted over are those of C02, whose clauses are decided by its own check.",
 bounded="initial state established by NewTokenizer; correspondence between the rune stream and the bytes of the source")

prop("C04", "A token's cached character-set answers equal the direct check",
 "Asking a token whether its text belongs to a character set gives the same answer as checking the text directly, regardless of which sets were asked before, in which order and how often. An answer remembered for one set never influences the answer for another.",
 ["histories", "inputs"], "every token text, every sequence of membership questions",
 "The tests set and read single bits of the bitmap; the guarantee is about all sequences of questions over all eight sets on one token.",
 [Y+"/token/token.go", Y+"/token/bitmap.go"],
 [("two-bit cache per set", Y+"/token/bitmap.go"), ("lazy fill", Y+"/token/token.go"), ("contracts", "/verif/spec/token.spec")],
 [H(Y, "token", "token_test", "token_test.go", "TestVerifTokenCache", "concrete replay of the cache contract", 2000, 30000)],
 DED + ", bit-vector semantics", "Proved with exact 16-bit arithmetic for every bitmap value and every set. Origin is assumed not to be reassigned after the first question.")

prop("C05", "Character-set checks accept exactly the YAML productions",
 "Each character-set check (decimal, word, URI, tag, anchor, plain-safe, single-quoted, double-quoted) accepts a text exactly when every character, percent escape, doubled quote or backslash escape in it is allowed by the corresponding YAML production. Truncated or malformed escapes are rejected at any position, and no text makes a check crash.",
 ["inputs"], "every valid UTF-8 string",
 "The tests sample some strings per predicate; escapes at every offset, truncated at every length, over the whole of Unicode are out of their reach.",
 [Y+"/yamlchar/chars.go", Y+"/yamlchar/charset.go"],
 [("predicates", Y+"/yamlchar/chars.go"), ("dispatch", Y+"/yamlchar/charset.go"), ("contracts", "/verif/spec/yamlchar.spec")],
 [H(Y, "yamlchar", "yamlchar_test", "yamlchar_test.go", "TestVerifPredicates", "concrete replay of the predicate contracts")],
 DED, "Proved: each predicate equals a recursive definition of its production, for every string, with all index bounds. Strings are sequences of code points.")

prop("C06", "Double-quoted escaping and unescaping are inverse for every string",
 "Escaping any string for a double-quoted scalar and unescaping the result gives the string back, and the escaped form contains only characters and escapes that a double-quoted scalar may contain. Unescaping accepts exactly the well-formed bodies (code points of 2^31 and above excepted) and yields the text the YAML escapes stand for, wherever the escape occurs.",
 ["inputs"], "every valid UTF-8 string",
 "The tests cover selected escapes near the start of short strings; the defects found (digits read from the wrong offset, unescapable \\b) needed an escape at a later offset.",
 [Y+"/yamlchar/transformations.go"],
 [("escape/unescape", Y+"/yamlchar/transformations.go"), ("contracts and round-trip lemmas", "/verif/spec/quoting.spec")],
 [H(Y, "yamlchar", "yamlchar_test", "yamlchar_test.go", "TestVerifDoubleQuoted", "concrete replay of the quoting contracts")],
 DED + " with inductive lemmas", "Proved: both functions equal recursive definitions, and the round trip is a lemma by induction over those. Trusted: documented behaviour of strconv.ParseInt (base 16) and strconv.QuoteRuneToASCII on control characters.")

prop("C07", "Single-quoted quoting and unquoting are inverse for every string",
 "Quoting any string of printable characters for a single-quoted scalar and unquoting the result gives the string back, and the quoted form is a well-formed body. Unquoting accepts exactly the bodies in which every quote is doubled and every character is printable, and replaces each doubled quote by one.",
 ["inputs"], "every valid UTF-8 string",
 "The tests sample a few strings; runs of quotes of every length and position are out of reach of examples.",
 [Y+"/yamlchar/transformations.go"],
 [("quote/unquote", Y+"/yamlchar/transformations.go"), ("contracts and round-trip lemmas", "/verif/spec/quoting.spec")],
 [H(Y, "yamlchar", "yamlchar_test", "yamlchar_test.go", "TestVerifSingleQuoted", "concrete replay of the quoting contracts")],
 DED + " with inductive lemmas", "Proved for every string; trusted: documented behaviour of strings.ReplaceAll for the quote character.")

prop("C08", "Bracket balance is decided exactly and snapshots restore it exactly",
 "After any sequence of tokens the balance checker reports a text as balanced exactly when every closing token matched the innermost open one and nothing is left open, and it names the innermost unclosed token. Restoring a snapshot brings back exactly the open tokens and the verdict of the moment it was taken, whatever was added since and however often it is restored.",
 ["histories", "inputs"], "every sequence of tokens, snapshots and restores over any set of bracket pairs",
 "The tests add fixed bracket strings and never restore a snapshot after the stack changed; the defect found (a snapshot sharing the stack's array) needs take, pop, push, restore.",
 [Y+"/parser/internal/balancecheck/balancecheck.go"],
 [("opener stack and snapshots", Y+"/parser/internal/balancecheck/balancecheck.go"), ("contracts", "/verif/spec/balance.spec")],
 [H(Y, "parser/internal/balancecheck", "balancecheck_test", "balance_test.go", "TestVerifBalance", "concrete replay of the balance contracts against an independent stack")],
 DED, "Proved for every history: each operation's effect on the stack of open tokens, the verdict, and that no operation can reach the elements of a snapshot. Mathematical integers.")

prop("C09", "The encoder forwards every insertion and never writes a failed build",
 "Each insertion made on an encoder reaches its tree builder exactly once, as the same call with the same value, and in the same order. Encoding takes the result of the builder once: if the build failed, that error is returned, nothing is produced and the writer is not asked; otherwise exactly the built tree is written once, and the text or error of the writer is returned unchanged. This holds for any builder and writer, hence for both engines.",
 ["histories", "inputs"], "every builder and writer, every sequence of insertions and encodings",
 "The tests encode fixed trees with well-behaved builders; failing builders and writers in arbitrary histories are not sampled.",
 ["encode.go"],
 [("forwarding encoder", "encode.go"), ("contracts", "/verif/spec/encoder.spec")],
 [H(R, ".", "yamly_test", "encoder_test.go", "TestVerifEncoder", "concrete replay of the forwarding contracts with recording builders and writers", 3000, 30000)],
 DED, "Proved against arbitrary implementations of the builder and writer interfaces (ghost records of the calls). Assumes builder and writer are different objects.")

prop("C10", "The yayamls tree builder builds exactly the nesting of its calls",
 "For every history of insertions that describes one value, the built tree is exactly that value: each scalar, sequence and mapping stands where it was inserted, keys and values alternate, order is kept and the text of a scalar denotes the inserted value. Ending a collection that is not the innermost open one, ending a mapping with a key but no value, adding to a scalar root and errors handed in are reported; after the first error nothing more is recorded and that first error is the one returned. Taking the result makes the builder as new.",
 ["histories", "inputs"], "every sequence of insert, start, end and result calls, of any length and nesting, with any values",
 "The tests build a few dozen fixed trees; nesting, error positions and reuse combine without bound.",
 [Y+"/encode/builder.go", "engines/pkg/schema/schema.go"],
 [("route of open nodes and sticky error", Y+"/encode/builder.go"), ("contracts", "/verif/spec/builder.spec")],
 [H(Y, "encode", "encode_test", "buildmodel_test.go,builder_test.go", "TestVerifBuilder", "concrete replay of the builder contracts against an independent tree", 4000, 40000)],
 DED, "Proved for every state of the builder and every call: the representation invariant (open nodes do not overlap), where the new node is put, what stays unchanged, when a call is rejected, that a failed builder changes nothing. The texts of scalars are tied to the real conversion functions; that those denote the value (strconv, time) is checked on concrete values. Raw YAML goes through the parser (assumed to return a fresh tree); a second value after a complete collection is outside the statement.",
 bounded="what the scalar texts denote (strconv, time formatting); the content of raw YAML insertions")

prop("C11", "The goyaml tree builder builds exactly the nesting of its calls",
 "For every history of insertions that describes one value, the built yaml.v3 tree is exactly that value: each scalar, sequence and mapping stands where it was inserted, keys and values alternate, order is kept and the text of a scalar denotes the inserted value. Ending a collection that is not the innermost open one, ending a mapping with a key but no value, adding to a scalar root and errors handed in are reported; after the first error nothing more is recorded and that first error is the one returned. Taking the result makes the builder as new.",
 ["histories", "inputs"], "every sequence of insert, start, end and result calls, of any length and nesting, with any values",
 "There are no tests of this builder's error handling and few of its trees; the defect found (a mapping ended with a pending key) needs an odd number of insertions.",
 [G+"/encode/builder.go", "engines/pkg/schema/schema.go"],
 [("route of open nodes and sticky error", G+"/encode/builder.go"), ("contracts", "/verif/spec/gobuilder.spec")],
 [H(G, "encode", "encode_test", "buildmodel_test.go,gobuilder_test.go", "TestVerifGoBuilder", "concrete replay of the builder contracts against an independent tree", 4000, 40000)],
 DED, "As C10, over yaml.v3 nodes. yaml.Unmarshal (raw insertions) is trusted to build a fresh tree; a second value after a complete collection is outside the statement.",
 bounded="what the scalar texts denote (strconv, time formatting); the content of raw YAML insertions")

prop("C12", "A yayamls read delivers what stands next in the tree, or an error",
 "Reading a tree in order, each typed read delivers the value that the next unread scalar (an alias stands for its target) denotes in the asked type and size, and a collection read enters exactly the next sequence or mapping, whose items run out when all were read. A read that does not fit delivers the zero value (an empty state) and leaves an error that stays reported; values left over from earlier reads are never delivered. After a fatal error every read delivers a zero value, no collection has unread items, and the first such error is the one returned.",
 ["histories", "inputs"], "every tree, every sequence of reads, fitting or not, errors added by the caller at any point",
 "The tests read some dozen trees with fitting reads; which reads fit where, after which earlier denials and errors, multiplies without bound (defects found: alias followed by a stale node, a denial not reported for null, iteration going on for ever after a fatal error).",
 [Y+"/decode/reader.go", Y+"/decode/expected.go", "engines/pkg/schema/schema.go"],
 [("route of visited nodes", Y+"/decode/reader.go"), ("acceptance of nodes by expected kind", Y+"/decode/expected.go"), ("contracts", "/verif/spec/reader.spec")],
 [H(Y, "decode", "decode_test", "readmodel_test.go,reader_test.go", "TestVerifReader", "concrete replay of the reading contracts: the order of delivery, what the texts denote, and Any, Raw, Node reads, against an independent tree", 6000, 60000)],
 DED, "Proved for every state reachable by the reads: a value is only delivered when the text came from a text node visited by this very read and belongs to the asked kind, and is exactly the conversion of that text in the asked size; else zero and a recorded error; recorded errors stay; after a fatal error the iterators are drained and nothing changes. Which node is next (document order), and that the conversions denote the value, is checked on concrete walks. Assumes trees without nil nodes; calls through option functions do not touch the reader.",
 bounded="document order of delivered nodes; meaning of the conversion functions (strconv, time); Any, Raw and Node reads")

prop("C13", "A goyaml read delivers what stands next in the tree, or an error",
 "Reading a yaml.v3 tree in order, each typed read delivers the value that the next unread scalar (an alias stands for its target) denotes in the asked type and size, and a collection read enters exactly the next sequence or mapping, whose items run out when all were read. A read that does not fit delivers the zero value (an empty state) and leaves an error that stays reported; values left over from earlier reads are never delivered. After a fatal error every read delivers a zero value, no collection has unread items, and the first such error is the one returned.",
 ["histories", "inputs"], "every tree, every sequence of reads, fitting or not, errors added by the caller at any point",
 "The tests read some dozen trees with fitting reads; which reads fit where, after which earlier denials and errors, multiplies without bound (defects found: an alias that is never consumed, a nil error draining the open collections).",
 [G+"/decode/reader.go", G+"/decode/expected.go", "engines/pkg/schema/schema.go"],
 [("route of visited nodes", G+"/decode/reader.go"), ("acceptance of nodes by expected kind", G+"/decode/expected.go"), ("contracts", "/verif/spec/goreader.spec")],
 [H(G, "decode", "decode_test", "readmodel_test.go,goreader_test.go", "TestVerifGoReader", "concrete replay of the reading contracts: the order of delivery, what the texts denote, and Any, Raw, Node reads, against an independent tree", 6000, 60000)],
 DED, "As C12, over yaml.v3 nodes of the shapes yaml.v3 builds (below a document: scalars, sequences, mappings, aliases with a target that is no alias).",
 bounded="document order of delivered nodes; meaning of the conversion functions (strconv, time); Any, Raw and Node reads")

prop("C14", "Scalar texts are classified by the schema and conversions are inverse",
 "A text is taken as null, boolean, integer, unsigned integer, float or base64 binary exactly when the YAML core schema (resp. the !!binary form) says so, for every text: no other spelling is accepted and none of the listed ones is missed. Each conversion of a Go value to text gives a text of its own kind that converts back to the same value: both booleans, all 64-bit integers, all floats including the infinities and not-a-number, and instants to the nanosecond (years up to 9999, offsets of whole minutes). A text counts as a timestamp exactly when it can be converted to one.",
 ["inputs"], "every text and every Go value of the scalar types",
 "The package has no tests of its own; the engines' tests use a handful of ordinary scalars.",
 ["engines/pkg/schema/schema.go"],
 [("expressions and conversions", "engines/pkg/schema/schema.go"), ("contracts", "/verif/spec/schema.spec")],
 [H(R, "engines/pkg/schema", "schema_test", "schema_test.go", "TestVerifSchema", "concrete replay: all texts up to three characters over the relevant alphabet, random values of every type", 3000, 40000)],
 DED, "Proved for every text and value. Regular expressions compiled from constants are interpreted exactly (product automaton of all expressions applied to one text). Trusted: documented behaviour of strconv (formatting and parsing are inverse), math.Inf/IsInf/IsNaN, strings.Fields, time.Format; which texts the timestamp layouts read is checked on concrete values. Leading zeros of decimal integers (read as octal) are outside the statement.",
 bounded="the layouts timestamps are read with; the values integer texts denote")

prop("C15", "The parser backtracks exactly and reports every unbalanced bracket",
 "Whichever alternatives of the grammar the parser tries on whatever token sequence, every checkpoint a construct sets is committed or rolled back exactly once before that construct ends (none is left, none of an enclosing construct is touched), and going back to one restores the current token, whether it stands at the start of a line, and the open flow brackets to exactly those of that place in the token sequence. Text collected for a scalar is never cut below what was there when its construct began, buffers are handed back to the shared pool empty, and errors once recorded are never dropped. Parsing without an error means that the tokens read close no flow bracket that is not open, and leave none open at the end of the input.",
 ["inputs", "histories"], "every sequence of tokens, every path through the grammar functions",
 "The tests parse some hundred well-formed texts, most on the first alternative; which checkpoints are open where an alternative fails depends on the whole input (defects found: a checkpoint left open by an escaped line break in a double-quoted text, snapshots of the open brackets overwritten after going back).",
 [Y+"/parser/parser.go", Y+"/parser/block.go", Y+"/parser/flow.go", Y+"/parser/documents.go", Y+"/parser/indents.go", Y+"/parser/comments.go", Y+"/parser/properties.go", Y+"/parser/token_source.go", Y+"/parser/internal/balancecheck/balancecheck.go", Y+"/pkg/cpaccessor/accessor.go"],
 [("checkpoints and state", Y+"/parser/parser.go"), ("grammar functions", Y+"/parser/block.go"), ("contracts", "/verif/spec/parser.spec")],
 [H(Y, "parser", "parser", "parser_in_test.go", "TestVerifParserState", "concrete replay: state of the parser after random texts against the recorded token sequence", 4000, 40000),
  H(Y, "parser", "parser_test", "parser_out_test.go", "TestVerifParserOutcome", "concrete replay: outcome against the brackets of the delivered tokens; same text, same tree", 4000, 40000)],
 DED, "Proved for every function of the grammar (each checked against the contracts of the functions it calls, recursion included) and the entry points that take a token stream. The token sequence is arbitrary; switching raw mode is taken as deciding what the stream delivers next. Trusted: sync.Pool hands out what was put in or made; errors.Join. Partial correctness: running time and which tree is built are not part of it. Mathematical integers.",
 state=[{"name": "position", "meaning": "tokens read and not rolled back", "where": "parser.tok, tokSrc"}, {"name": "open checkpoints", "meaning": "places to return to, with the state there", "where": "savedStates, checkpointsStack"}])
