From 1f372de773d4f770cc97fe21d75ae0a8c63dcfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 01/16] fix: cpaccessor remembers the last replayed element
 when the buffer is dropped

After a rollback, replaying the buffered elements with no checkpoint left
dropped the buffer without updating the saved element, so a later
SetCheckpoint+Rollback returned a stale element instead of the last one
delivered.
---
 engines/yayamls/pkg/cpaccessor/accessor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..22b7d82 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -61,7 +61,9 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		a.bufIndicator++
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
-				// there are no checkpoints - buffer elements will not be used anymore
+				// there are no checkpoints - buffer elements will not be used anymore,
+				// but the last one is needed for the first checkpoint (to be able to rollback to it).
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
-- 
2.43.0


From f95f9390a09557a6d3819d6440c3b4e5463b1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:26 +0000
Subject: [PATCH 02/16] fix: unescape \x, \u and \U sequences from their own
 digits

The hex digits were sliced after the index had been moved past them, so
the following characters were decoded instead (or the slice went out of
range).
---
 engines/yayamls/yamlchar/transformations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..d2f45a0 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -221,8 +221,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +232,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,8 +243,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
-- 
2.43.0


From 061b0cac674591322339c35ce087398a2ef93d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 03/16] fix: accept and unescape the same set of single escaped
 characters

\b (YAML [45] ns-esc-backspace) was written and unescaped, but rejected
by IsEscapedCharacter; an escaped tab (YAML [46]) was accepted, but could
not be unescaped.
---
 engines/yayamls/yamlchar/chars.go           | 2 +-
 engines/yayamls/yamlchar/transformations.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index d2f45a0..2596fab 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -174,7 +174,7 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\a'
 	case 'b':
 		result = '\b'
-	case 't':
+	case 't', '\t':
 		result = '\t'
 	case 'n':
 		result = '\n'
-- 
2.43.0


From 2f4392905b9dcd726d180fb1292182e37a6725c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:15 +0000
Subject: [PATCH 04/16] fix: balance checker memento restores the exact stack
 of openers

A memento stored only the size of the stack, so popping an opener and
pushing another one between Memento and SetMemento restored a stack with
the wrong opener. Reset also kept the "cannot be balanced" mark.
---
 .../parser/internal/balancecheck/balancecheck.go   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engines/yayamls/parser/internal/balancecheck/balancecheck.go b/engines/yayamls/parser/internal/balancecheck/balancecheck.go
index 59ee476..a8e6903 100644
--- a/engines/yayamls/parser/internal/balancecheck/balancecheck.go
+++ b/engines/yayamls/parser/internal/balancecheck/balancecheck.go
@@ -38,7 +38,8 @@ func (b *BalanceChecker) Add(r token.Type) bool {
 		return false
 	}
 	if isCloser && canPop {
-		b.stack = b.stack[:len(b.stack)-1]
+		// limit capacity to prevent overwriting of popped openers, which may be stored in a memento.
+		b.stack = b.stack[: len(b.stack)-1 : len(b.stack)-1]
 	} else if isOpener {
 		b.stack = append(b.stack, r)
 	}
@@ -59,26 +60,23 @@ func (b *BalanceChecker) PeekLastUnbalanced() (token.Type, bool) {
 }
 
 type BalanceCheckerMemento struct {
-	stackSize        int
+	stack            []token.Type
 	cannotBeBalanced bool
 }
 
 func (b *BalanceChecker) Memento() BalanceCheckerMemento {
 	return BalanceCheckerMemento{
-		stackSize:        len(b.stack),
+		stack:            b.stack[:len(b.stack):len(b.stack)],
 		cannotBeBalanced: b.cannotBeBalanced,
 	}
 }
 
 func (b *BalanceChecker) SetMemento(m BalanceCheckerMemento) {
-	stackSize := m.stackSize
-	if cap(b.stack) < stackSize {
-		stackSize = cap(b.stack)
-	}
-	b.stack = b.stack[:stackSize]
+	b.stack = m.stack
 	b.cannotBeBalanced = m.cannotBeBalanced
 }
 
 func (b *BalanceChecker) Reset() {
 	b.stack = b.stack[:0]
+	b.cannotBeBalanced = false
 }
-- 
2.43.0


From ea953c5676e10b93fa21fde0372f0eed09e63577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:24 +0000
Subject: [PATCH 05/16] fix: roll back the failed attempt of an empty line in
 s-double-escaped

The checkpoint was neither committed nor rolled back, so the enclosing
rollback returned to the wrong position.
---
 engines/yayamls/parser/flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..9ff7e04 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -296,6 +296,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		p.setCheckpoint()
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
+			p.rollback()
 			buf.Truncate(savedLen)
 			break
 		}
-- 
2.43.0


From 8c9dd50074fe4db3efb3e06bbb0e3661fee9c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 06/16] fix: goyaml builder must reject ending a mapping with a
 pending key

---
 engines/goyaml/encode/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..cb8dbca 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: got pending mapping entry without a value")
 	default:
 		b.popNode()
 	}
-- 
2.43.0


From 346f056f3fff34ae4792a67b34194477e2e7d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 07/16] fix: timestamp layouts must use the reference year

---
 engines/pkg/schema/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..735f317 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -158,9 +158,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
-- 
2.43.0


From 0a9f538c73d2187be7414625601aee65c5af53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 08/16] fix: keep fractional seconds of timestamps when
 encoding

---
 engines/pkg/schema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 735f317..f885dbb 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -176,7 +176,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From f783c4af67db3d7aabbff7416ebfe1017c3db8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 09/16] fix: reading an alias must consume the alias node
 itself (yayamls)

---
 engines/yayamls/decode/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..3bec926 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,7 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From ceb6b670ed050b82744e64c9e53f5da81bee800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 10/16] fix: reading an alias must consume the alias node
 itself (goyaml)

---
 engines/goyaml/decode/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..ad65b99 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,7 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
-- 
2.43.0


From 6c513de2f19270b2161ddc2e7bb73a2b07fd3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 11/16] fix: a denied null node must not leave a stale value to
 be returned

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 3bec926..611eaa2 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -442,10 +442,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From c86898dca7c688ad2d7e451129988b3055982fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:04 +0000
Subject: [PATCH 12/16] fix: adding a nil error must not drop the unread items

---
 engines/goyaml/decode/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index ad65b99..2ca4898 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -545,7 +545,7 @@ func (r *ASTReader) Error() error {
 }
 
 func (r *ASTReader) AddError(err error) {
-	if r.fatalError == nil {
+	if err != nil && r.fatalError == nil {
 		r.setFatalError(err)
 	}
 }
-- 
2.43.0


From af7315eb20a57c2d86eb46b22b54afef2f851708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 13/16] fix: a fatal error must end the iteration over open
 collections

---
 engines/yayamls/decode/reader.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 611eaa2..139ca05 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -624,7 +624,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -641,7 +641,18 @@ func (r *ASTReader) Error() error {
 }
 
 func (r *ASTReader) AddError(err error) {
-	if r.fatalError == nil {
-		r.fatalError = err
+	if err != nil && r.fatalError == nil {
+		r.setFatalError(err)
 	}
 }
+
+func (r *ASTReader) setFatalError(err error) {
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From bdcf583823e0dce2199db7da1d0e28a77ebc0b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:54 +0000
Subject: [PATCH 14/16] fix: aliases to anchors inside a skipped or raw subtree
 resolve

---
 engines/yayamls/decode/anchors.go | 24 ++++++++++++++++++++++++
 engines/yayamls/decode/reader.go  |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..523de9d 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -36,6 +36,30 @@ func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
 	return anchored, nil
 }
 
+// BindNested binds anchors met inside the subtree which is consumed as a whole (e.g. skipped).
+func (ak *anchorsKeeper) BindNested(n ast.Node) {
+	switch n := n.(type) {
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok {
+				ak.anchors[anchor.Text()] = n.Content()
+			}
+		}
+		ak.BindNested(n.Content())
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.BindNested(entry)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.BindNested(entry)
+		}
+	case *ast.MappingEntryNode:
+		ak.BindNested(n.Key())
+		ak.BindNested(n.Value())
+	}
+}
+
 func (ak *anchorsKeeper) clear() {
 	clear(ak.anchors)
 	ak.metAnchor = false
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 139ca05..3f08f2f 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -335,6 +335,7 @@ func (r *ASTReader) Raw() []byte {
 		r.appendError(err)
 		return nil
 	}
+	r.anchors.BindNested(r.currentNode())
 	r.popRoutePoint()
 	return v
 }
@@ -351,6 +352,7 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	r.anchors.BindNested(n)
 	r.popRoutePoint()
 	return n
 }
@@ -524,6 +526,7 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 	r.swapRoutePoint(point)
 	switch point.visitingResult.conclusion {
 	case visitingConclusionConsume:
+		r.anchors.BindNested(point.node)
 		r.popRoutePoint()
 	case visitingConclusionMatch:
 	case visitingConclusionDeny:
-- 
2.43.0


From 4890648bc2127fe999214aa1317ddbfb441d7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 15/16] fix: the writer keeps empty sequences and mappings

---
 engines/yayamls/encode/writer.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..902bccd 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -196,6 +196,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString("[]")
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		w.buf.WriteByte('-')
@@ -210,6 +214,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString("{}")
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		entry.Accept(w)
@@ -283,11 +291,11 @@ func (w *ASTWriter) writeBeforeSimpleElements(s string) {
 }
 
 func (w *ASTWriter) writePreparedData(n ast.Node) {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		w.buf.WriteString(w.beforeComplex)
-	case ast.ContentType:
+	switch {
+	case n.Type() == ast.ContentType:
 		return
+	case isComplex(n):
+		w.buf.WriteString(w.beforeComplex)
 	default:
 		w.buf.WriteString(w.beforeSimple)
 	}
@@ -378,11 +386,13 @@ func isMultiline(s string) bool {
 }
 
 func isComplex(n ast.Node) bool {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		return true
-	case ast.ContentType:
-		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	switch n := n.(type) {
+	case *ast.SequenceNode:
+		return len(n.Entries()) > 0
+	case *ast.MappingNode:
+		return len(n.Entries()) > 0
+	case *ast.ContentNode:
+		return isComplex(n.Content())
 	default:
 		return false
 	}
-- 
2.43.0


From fcc8af1968bb7237604e101e4405f10e07df2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 16/16] fix: the document end marker stands on a line of its
 own

---
 engines/yayamls/encode/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 902bccd..11a8b6e 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -134,6 +134,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
-- 
2.43.0

