From fd6d846f5c635ab4a4ec0199f634f34535583cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:00 +0000
Subject: [PATCH 01/71] fix: report an error when the parser stops before the
 end of the source

Parse returned the documents recognised so far and no error when the grammar
could not be matched against the whole token stream, so sources like
"a: b\n c: d\n", "it's" or "a!b" silently produced an empty (or truncated)
stream. Report the first token that could not be parsed instead.
---
 engines/yayamls/parser/errors.go | 10 ++++++++++
 engines/yayamls/parser/parser.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/engines/yayamls/parser/errors.go b/engines/yayamls/parser/errors.go
index 048f254..79508f8 100644
--- a/engines/yayamls/parser/errors.go
+++ b/engines/yayamls/parser/errors.go
@@ -115,3 +115,13 @@ type DeadEndError struct {
 func (d DeadEndError) Error() string {
 	return fmt.Sprintf("failed to parse data: meeting a 'dead end' token at position %s", d.Pos)
 }
+
+// UnexpectedTokenError is used to indicate case when a token which can not be a part of YAML document
+// appears in source, so the rest of the source can not be parsed. E.g. "a: b\n c: d\n"
+type UnexpectedTokenError struct {
+	Tok token.Token
+}
+
+func (u UnexpectedTokenError) Error() string {
+	return fmt.Sprintf("unexpected token %q at position %s", u.Tok.Origin, u.Tok.Start)
+}
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 2a71018..8787a5c 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -136,6 +136,9 @@ func (p *parser) Parse() (ast.Node, error) {
 	p.next()
 	p.startOfLine = true
 	result := p.parseStream()
+	if !p.hasErrors() && p.tok.Type != token.EOFType {
+		p.appendError(UnexpectedTokenError{p.tok})
+	}
 	return result, p.error()
 }
 
-- 
2.43.0


From 325b3bfbc3c28712f5babe45d07c668c853ffbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:45 +0000
Subject: [PATCH 02/71] fix: unescape the digits of \x, \u and \U escapes, not
 the characters after them

ConvertFromYAMLDoubleQuotedString advanced past the hexadecimal digits before
slicing them, so "\x41bc" became U+00BC and a trailing escape panicked.
---
 engines/yayamls/yamlchar/transformations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..d2f45a0 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -221,8 +221,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +232,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,8 +243,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
-- 
2.43.0


From e5e0fe46f5edc183d1375db2a5ee4f501615fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:46 +0000
Subject: [PATCH 03/71] fix: accept the \b and \<TAB> escapes of double quoted
 strings everywhere

IsDoubleQuotedString rejected \b although the unescaping and escaping functions
know it (the writer even produces it), and unescaping rejected the escaped
horizontal tab which IsDoubleQuotedString accepts (YAML specification [44], [45]).
---
 engines/yayamls/yamlchar/chars.go           | 2 +-
 engines/yayamls/yamlchar/transformations.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index d2f45a0..2596fab 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -174,7 +174,7 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\a'
 	case 'b':
 		result = '\b'
-	case 't':
+	case 't', '\t':
 		result = '\t'
 	case 'n':
 		result = '\n'
-- 
2.43.0


From 221b27120e515d7ba87dd5b798de8adf7a804946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:48 +0000
Subject: [PATCH 04/71] fix: resolve the escape sequences of quoted strings
 when reading and rewriting

Parsed quoted strings keep their source text in the AST, but nothing resolved
the escape sequences: '"a\nb"' was decoded as the four characters 'a\nb' and
'it''s' kept both quotes, and the writer escaped the sequences once more, so
strings did not survive an encode-decode round trip. Mark such nodes and let
the reader and the writer use the resolved value.
---
 engines/yayamls/ast/node.go      | 37 ++++++++++++++++++++++++++++++++
 engines/yayamls/decode/any.go    |  7 ++++--
 engines/yayamls/decode/reader.go |  6 ++++++
 engines/yayamls/encode/writer.go |  7 +++++-
 engines/yayamls/parser/flow.go   |  8 +++----
 5 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/ast/node.go b/engines/yayamls/ast/node.go
index 02a6ffd..8b767c0 100644
--- a/engines/yayamls/ast/node.go
+++ b/engines/yayamls/ast/node.go
@@ -2,7 +2,10 @@
 package ast
 
 import (
+	"strings"
+
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
+	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
 )
 
 // NodeType represents the type of element in AST
@@ -341,9 +344,18 @@ func WithQuotingType(t QuotingType) TextNodeOption {
 	})
 }
 
+// WithEscapedText marks the text of quoted TextNode as taken from YAML source as is,
+// i.e. with the escape sequences not being resolved.
+func WithEscapedText() TextNodeOption {
+	return textNodeOptionFunc(func(node *TextNode) {
+		node.escaped = true
+	})
+}
+
 type TextNode struct {
 	quotingType QuotingType
 	text        string
+	escaped     bool
 }
 
 func (*TextNode) Type() NodeType {
@@ -362,6 +374,31 @@ func (t *TextNode) Text() string {
 	return t.text
 }
 
+// Value returns the text with the escape sequences resolved.
+func (t *TextNode) Value() (string, error) {
+	if !t.escaped {
+		return t.text, nil
+	}
+	var unquote func(string) (string, error)
+	switch t.quotingType {
+	case SingleQuotingType:
+		unquote = yamlchar.ConvertFromYAMLSingleQuotedString
+	case DoubleQuotingType:
+		unquote = yamlchar.ConvertFromYAMLDoubleQuotedString
+	default:
+		return t.text, nil
+	}
+	// line breaks here are the result of lines folding, not a part of escape sequences
+	lines := strings.Split(t.text, "\n")
+	for i := range lines {
+		var err error
+		if lines[i], err = unquote(lines[i]); err != nil {
+			return "", err
+		}
+	}
+	return strings.Join(lines, "\n"), nil
+}
+
 func NewTextNode(text string, opts ...TextNodeOption) *TextNode {
 	node := TextNode{
 		text: text,
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index fd7b9de..208aee1 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -56,7 +56,10 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 	if a.extractString {
-		a.stringValue = n.Text()
+		var err error
+		if a.stringValue, err = n.Value(); err != nil {
+			a.appendError(err)
+		}
 	} else {
 		a.extractAnyValueFromText(n)
 	}
@@ -172,7 +175,7 @@ func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	case schema.IsBoolean(n):
 		a.value, err = schema.ToBoolean(n.Text())
 	default:
-		a.value = n.Text()
+		a.value, err = n.Value()
 	}
 	if err != nil {
 		a.appendError(err)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..5cf936a 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -498,6 +498,12 @@ func (r *ASTReader) visitTexterNode(n ast.TexterNode) {
 	if point.visitingResult.action == visitingActionExtract {
 		r.extractedCollectionState = nil
 		r.extractedValue = n.Text()
+		if txtNode, ok := n.(*ast.TextNode); ok {
+			var err error
+			if r.extractedValue, err = txtNode.Value(); err != nil {
+				r.appendError(err)
+			}
+		}
 	}
 }
 
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..ded3829 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -174,7 +174,12 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 
 func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
-	switch txt := n.Text(); n.QuotingType() {
+	txt, err := n.Value()
+	if err != nil {
+		w.appendError(err)
+		return
+	}
+	switch n.QuotingType() {
 	case ast.AbsentQuotingType:
 		if isMultiline(txt) {
 			w.writeMultilineLiteralText(txt)
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..57d4640 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -177,7 +177,7 @@ func (p *parser) parseDoubleOneLine() ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType), ast.WithEscapedText())
 }
 
 // YAML specification: [116] nb-double-multi-line
@@ -209,7 +209,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType), ast.WithEscapedText())
 }
 
 // YAML specification: [115] s-double-next-line
@@ -352,7 +352,7 @@ func (p *parser) parseSingleOneLine() ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType))
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType), ast.WithEscapedText())
 }
 
 // YAML specification: [125] nb-single-multi-line
@@ -384,7 +384,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType))
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType), ast.WithEscapedText())
 }
 
 // YAML specification: [124] s-single-next-line
-- 
2.43.0


From cb255f025aa66f55756ac63909ac3e842e738336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 05/71] fix: decode quoted scalars as strings when the target
 is any

Any resolved the type of a scalar by its text only, so the quoted "123" or
'true' became a number or a boolean, and a string stored in an interface did
not survive an encode-decode round trip.
---
 engines/yayamls/decode/any.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 208aee1..f6145d6 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -164,6 +164,8 @@ func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	case schema.IsNull(n):
 		a.value = nil
 		return
+	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType:
+		a.value, err = n.Value()
 	case schema.IsTimestamp(n):
 		a.value, err = schema.ToTimestamp(n.Text())
 	case schema.IsUnsignedInteger(n):
-- 
2.43.0


From 5ae1b848f537a54cee88d6b6f86b23d7f5ff2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:32 +0000
Subject: [PATCH 06/71] fix: do not visit an alias again after its anchored
 node was read

The readers pushed the anchored node above the alias node, so after the value
was consumed the alias stayed current and was dereferenced once more by every
following call: reading '- &a 1\n- *a\n- 2' never got to the third item, and a
decoder looping over HasUnprocessedItems never stopped.
---
 engines/goyaml/decode/reader.go  | 4 +++-
 engines/yayamls/decode/reader.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..9bb6cee 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,9 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		// anchored node takes the place of alias node, so the alias is not visited again
+		// after the anchored node is processed
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 5cf936a..76fe1d5 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,9 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		// anchored node takes the place of alias node, so the alias is not visited again
+		// after the anchored node is processed
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From 07d6830685d58a631690c6247af700b9b2ec25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:40 +0000
Subject: [PATCH 07/71] fix: decode quoted scalars as strings when the target
 is any (goyaml)

As in yayamls, the quoted "123" or 'true' became a number or a boolean.
---
 engines/goyaml/decode/any.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index a0dbe15..3a837d8 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -142,6 +142,8 @@ func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 		switch {
 		case schema.IsNull(n):
 			a.value = nil
+		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0:
+			a.value = n.Value
 		case schema.IsTimestamp(n):
 			a.value, err = schema.ToTimestamp(n.Value)
 		case schema.IsUnsignedInteger(n):
-- 
2.43.0


From f5d94e06f5e40a19c29c30960dcefd293ae622ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 08/71] fix: merge only the mapping under the merge key, and
 every mapping of a sequence

The merge flag stayed set while the merged mapping was built, so with
'<<: {a: {b: 1}}' the nested mapping was merged in place of its parent and the
key 'a' was lost; with '<<: [{a: 1}, {b: 2}]' only the last mapping was merged.
---
 engines/goyaml/decode/any.go  | 26 +++++++++++++++++++++++---
 engines/yayamls/decode/any.go | 27 ++++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 3a837d8..9ace2a0 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -53,18 +53,31 @@ func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	savedExtractString := a.extractString
 	a.extractString = false
 
+	var mergeMap map[string]any
 	for _, entry := range n.Content {
 		a.visitNode(entry)
 		if !a.hasErrors() {
-			s = append(s, a.value)
+			if a.mergeMap == nil {
+				s = append(s, a.value)
+			} else {
+				// sequence of mappings to merge: the earlier mapping, the higher priority
+				if mergeMap == nil {
+					mergeMap = make(map[string]any)
+				}
+				mergeMaps(mergeMap, a.mergeMap)
+				a.mergeMap = nil
+			}
 		}
 	}
 
 	a.extractString = savedExtractString
 
-	if a.extractString {
+	switch {
+	case mergeMap != nil:
+		a.mergeMap = mergeMap
+	case a.extractString:
 		a.stringValue = fmt.Sprint(s)
-	} else {
+	default:
 		a.value = s
 	}
 }
@@ -72,6 +85,11 @@ func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
 	m := make(map[string]any, len(n.Content)/2)
 	entriesAmount := len(n.Content)
+
+	// only the mapping itself is to be merged, not the mappings nested in it
+	savedExtractMergeMap := a.extractMergeMap
+	a.extractMergeMap = false
+
 	for i := 0; i < entriesAmount; i += 2 {
 		key := n.Content[i]
 		var value *yaml.Node
@@ -97,6 +115,8 @@ func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
 		}
 	}
 
+	a.extractMergeMap = savedExtractMergeMap
+
 	switch {
 	case a.extractMergeMap:
 		a.mergeMap = m
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index f6145d6..03a3b11 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -72,18 +72,31 @@ func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
 	savedExtractString := a.extractString
 	a.extractString = false
 
+	var mergeMap map[string]any
 	for _, entry := range entries {
 		a.visitNode(entry)
 		if !a.hasErrors() {
-			s = append(s, a.value)
+			if a.mergeMap == nil {
+				s = append(s, a.value)
+			} else {
+				// sequence of mappings to merge: the earlier mapping, the higher priority
+				if mergeMap == nil {
+					mergeMap = make(map[string]any)
+				}
+				mergeMaps(mergeMap, a.mergeMap)
+				a.mergeMap = nil
+			}
 		}
 	}
 
 	a.extractString = savedExtractString
 
-	if a.extractString {
+	switch {
+	case mergeMap != nil:
+		a.mergeMap = mergeMap
+	case a.extractString:
 		a.stringValue = fmt.Sprint(s)
-	} else {
+	default:
 		a.value = s
 	}
 }
@@ -91,6 +104,11 @@ func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
 func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
 	entries := n.Entries()
 	m := make(map[string]any, len(entries))
+
+	// only the mapping itself is to be merged, not the mappings nested in it
+	savedExtractMergeMap := a.extractMergeMap
+	a.extractMergeMap = false
+
 	for _, entry := range entries {
 		a.visitNode(entry)
 		if !a.hasErrors() {
@@ -102,6 +120,9 @@ func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
 			}
 		}
 	}
+
+	a.extractMergeMap = savedExtractMergeMap
+
 	switch {
 	case a.extractMergeMap:
 		a.mergeMap = m
-- 
2.43.0


From 167728b6d61902d0828671afe3a45e1b54977b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:22 +0000
Subject: [PATCH 09/71] fix: report an anchored node containing itself instead
 of exhausting the stack

Any followed the alias of '&a [*a]' for ever and crashed the process with a
stack overflow, which can not be recovered from.
---
 engines/goyaml/decode/any.go  | 19 +++++++++++++++++--
 engines/yayamls/decode/any.go | 17 +++++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 9ace2a0..4b67512 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -17,7 +17,9 @@ type anyBuilder struct {
 	extractMergeMap bool
 	mergeMap        map[string]any
 
-	errors []error
+	// anchored nodes being visited via their aliases
+	dereferenced map[*yaml.Node]struct{}
+	errors       []error
 }
 
 func (a *anyBuilder) extractAnyValue(n *yaml.Node) (any, error) {
@@ -43,10 +45,23 @@ func (a *anyBuilder) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		a.visitScalarNode(n)
 	case yaml.AliasNode:
-		a.visitNode(n.Alias)
+		a.visitAliasNode(n)
 	}
 }
 
+func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
+	if _, ok := a.dereferenced[n.Alias]; ok {
+		a.appendError(fmt.Errorf("node with anchor %q contains itself", n.Value))
+		return
+	}
+	if a.dereferenced == nil {
+		a.dereferenced = map[*yaml.Node]struct{}{}
+	}
+	a.dereferenced[n.Alias] = struct{}{}
+	a.visitNode(n.Alias)
+	delete(a.dereferenced, n.Alias)
+}
+
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	s := make([]any, 0, len(n.Content))
 
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 03a3b11..abe3e9a 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -18,12 +18,15 @@ type anyBuilder struct {
 	mergeMap        map[string]any
 
 	anchors *anchorsKeeper
-	errors  []error
+	// anchored nodes being visited via their aliases
+	dereferenced map[ast.Node]struct{}
+	errors       []error
 }
 
 func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
 	return anyBuilder{
-		anchors: anchors,
+		anchors:      anchors,
+		dereferenced: map[ast.Node]struct{}{},
 	}
 }
 
@@ -49,9 +52,15 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := a.anchors.DereferenceAlias(n.Text())
 	if err != nil {
 		a.appendError(err)
-	} else {
-		a.visitNode(anchored)
+		return
+	}
+	if _, ok := a.dereferenced[anchored]; ok {
+		a.appendError(fmt.Errorf("node with anchor %q contains itself", n.Text()))
+		return
 	}
+	a.dereferenced[anchored] = struct{}{}
+	a.visitNode(anchored)
+	delete(a.dereferenced, anchored)
 }
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
-- 
2.43.0


From fcc838df47243957f25de163fb88b9a62b983820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:32 +0000
Subject: [PATCH 10/71] fix: finish the collections being read when decoding
 fails (yayamls)

---
 engines/yayamls/decode/reader.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 76fe1d5..02ef4ef 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -632,7 +632,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -649,7 +649,20 @@ func (r *ASTReader) Error() error {
 }
 
 func (r *ASTReader) AddError(err error) {
-	if r.fatalError == nil {
-		r.fatalError = err
+	if r.fatalError == nil && err != nil {
+		r.setFatalError(err)
 	}
 }
+
+// setFatalError stores the error and exhausts iterators of unfinished collections,
+// because nothing can be read from them anymore
+func (r *ASTReader) setFatalError(err error) {
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From c48167f5dfbc329811f435585f9bbe9d5b3e2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:32 +0000
Subject: [PATCH 11/71] fix: do not drop the rest of the document when a nil
 error is added (goyaml)

---
 engines/goyaml/decode/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 9bb6cee..3da9db1 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -547,7 +547,7 @@ func (r *ASTReader) Error() error {
 }
 
 func (r *ASTReader) AddError(err error) {
-	if r.fatalError == nil {
+	if r.fatalError == nil && err != nil {
 		r.setFatalError(err)
 	}
 }
-- 
2.43.0


From b61d8af0dfd199c5b25f680f39227f07d800b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:32 +0000
Subject: [PATCH 12/71] fix: report a mapping ended with a pending key (goyaml)

---
 engines/goyaml/encode/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..48b13bb 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: got a key without value")
 	default:
 		b.popNode()
 	}
-- 
2.43.0


From d96a78f1cd6e7cb54d1da39d496026cfd733070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:32 +0000
Subject: [PATCH 13/71] fix: deny null nodes like any other node instead of
 reading a stale value

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 02ef4ef..444c983 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -444,10 +444,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From da51d565a221054022dadd6b35216d4cb863d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:20 +0000
Subject: [PATCH 14/71] fix: write empty collections as [] and {} instead of
 nothing

---
 engines/yayamls/encode/writer.go | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index ded3829..83a5452 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -16,7 +16,11 @@ const (
 	defaultIndendationDelta = 2
 )
 
-const nullValue = "null"
+const (
+	nullValue     = "null"
+	emptySequence = "[]"
+	emptyMapping  = "{}"
+)
 
 var _ yamly.TreeWriter[ast.Node] = (*ASTWriter)(nil)
 
@@ -201,6 +205,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString(emptySequence)
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		w.buf.WriteByte('-')
@@ -215,6 +223,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString(emptyMapping)
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		entry.Accept(w)
@@ -288,11 +300,11 @@ func (w *ASTWriter) writeBeforeSimpleElements(s string) {
 }
 
 func (w *ASTWriter) writePreparedData(n ast.Node) {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		w.buf.WriteString(w.beforeComplex)
-	case ast.ContentType:
+	switch {
+	case n.Type() == ast.ContentType:
 		return
+	case isComplex(n):
+		w.buf.WriteString(w.beforeComplex)
 	default:
 		w.buf.WriteString(w.beforeSimple)
 	}
@@ -383,11 +395,13 @@ func isMultiline(s string) bool {
 }
 
 func isComplex(n ast.Node) bool {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		return true
-	case ast.ContentType:
-		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	switch n := n.(type) {
+	case *ast.SequenceNode:
+		return len(n.Entries()) > 0
+	case *ast.MappingNode:
+		return len(n.Entries()) > 0
+	case *ast.ContentNode:
+		return isComplex(n.Content())
 	default:
 		return false
 	}
-- 
2.43.0


From fba3b89785305f8a114078dcaf19ea7508db6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:04 +0000
Subject: [PATCH 15/71] fix: separate node properties from what precedes and
 follows them when writing

---
 engines/yayamls/encode/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 83a5452..8776bbf 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -138,6 +138,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
@@ -247,6 +248,7 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	if isComplexKey {
 		w.decreaseIndentation()
+		w.maybeWriteIndentation()
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
@@ -281,12 +283,15 @@ func (w *ASTWriter) VisitContentNode(n *ast.ContentNode) {
 	w.writePreparedData(n)
 	properties, content := n.Properties(), n.Content()
 	if ast.ValidNode(properties) {
-		w.buf.WriteByte(' ')
+		w.buf.WriteString(w.beforeSimple)
 		properties.Accept(w)
 
 		if w.opts.anchorsKeeper != nil {
 			w.opts.anchorsKeeper.BindToLatestAnchor(n)
 		}
+
+		w.writeBeforeComplexElements("\n")
+		w.writeBeforeSimpleElements(" ")
 	}
 	content.Accept(w)
 }
-- 
2.43.0


From 143f2fafca839180d9c88c01e9651be15805b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:54 +0000
Subject: [PATCH 16/71] fix: keep line breaks of single quoted strings when
 writing

---
 engines/yayamls/encode/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 8776bbf..7cc62a5 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -192,7 +192,12 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 			w.buf.WriteString(txt)
 		}
 	case ast.SingleQuotingType:
-		w.writeSingleQuotedText(txt)
+		if isMultiline(txt) {
+			// line breaks are folded in single quoted strings and cannot be escaped
+			w.writeDoubleQuotedText(txt)
+		} else {
+			w.writeSingleQuotedText(txt)
+		}
 	case ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
 	default:
-- 
2.43.0


From f629b01de05feb8d52618b3811f09849050c544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:24 +0000
Subject: [PATCH 17/71] fix: convert every string recognised as a decimal
 integer

---
 engines/pkg/schema/schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..77546e7 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -84,6 +84,10 @@ func FromInteger(val int64) string {
 
 // ToInteger tries to convert YAML into Go integer with given bit size.
 func ToInteger(src string, bitSize int) (int64, error) {
+	// unlike Go integers, YAML decimal integers may have leading zeros
+	if yamlDecimalIntegerRegex.MatchString(src) {
+		return strconv.ParseInt(src, 10, bitSize)
+	}
 	return strconv.ParseInt(src, 0, bitSize)
 }
 
@@ -94,6 +98,10 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
+	// unlike Go integers, YAML decimal integers may have leading zeros and plus sign
+	if yamlDecimalUnsignedRegex.MatchString(src) {
+		return strconv.ParseUint(strings.TrimPrefix(src, "+"), 10, bitSize)
+	}
 	return strconv.ParseUint(src, 0, bitSize)
 }
 
-- 
2.43.0


From cc9d07022e2a85aa70541ce8b8d72db52e4b4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:30 +0000
Subject: [PATCH 18/71] fix: use Go reference year in the short timestamp
 layouts

---
 engines/pkg/schema/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 77546e7..2928ff6 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -166,9 +166,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
-- 
2.43.0


From 146646a81c10714941e2ff900c8f345e0369dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 19/71] fix: keep fractional seconds of timestamps

---
 engines/pkg/schema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 2928ff6..825aa0c 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -184,7 +184,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From 51579c49bd11e779a9e38ce52ea0efe83c4272cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 20/71] fix: quote the strings which would be read differently
 without quotes

---
 engines/yayamls/encode/writer.go | 41 ++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 7cc62a5..b736e48 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"strings"
+	"unicode"
 
 	"github.com/KSpaceer/yamly"
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
@@ -189,7 +190,7 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 		if isMultiline(txt) {
 			w.writeMultilineLiteralText(txt)
 		} else {
-			w.buf.WriteString(txt)
+			w.writePlainText(txt)
 		}
 	case ast.SingleQuotingType:
 		if isMultiline(txt) {
@@ -204,7 +205,7 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 		if isMultiline(txt) {
 			w.writeDoubleQuotedText(txt)
 		} else {
-			w.buf.WriteString(txt)
+			w.writePlainText(txt)
 		}
 	}
 }
@@ -354,6 +355,14 @@ func (w *ASTWriter) maybeWriteLineBreak() {
 	}
 }
 
+func (w *ASTWriter) writePlainText(txt string) {
+	if canBePlain(txt) {
+		w.buf.WriteString(txt)
+	} else {
+		w.writeDoubleQuotedText(txt)
+	}
+}
+
 func (w *ASTWriter) writeMultilineLiteralText(txt string) {
 	lines := strings.Split(txt, "\n")
 	chompingIndicator := yamlchar.StripChompingCharacter
@@ -400,6 +409,34 @@ func (w *ASTWriter) reset() {
 	clear(w.metAnchors)
 }
 
+// canBePlain shows if the one-line text keeps its meaning being written without quotes.
+func canBePlain(txt string) bool {
+	if txt == "" {
+		return true
+	}
+	if strings.Trim(txt, " \t") != txt ||
+		strings.HasPrefix(txt, "---") || strings.HasPrefix(txt, "...") {
+		return false
+	}
+	var prev rune
+	for i, r := range txt {
+		switch {
+		case r != '\t' && !unicode.IsPrint(r):
+			return false
+		case r == yamlchar.CommentCharacter && (prev == 0 || yamlchar.IsWhitespaceChar(prev)):
+			return false
+		case prev == yamlchar.MappingValueCharacter && yamlchar.IsWhitespaceChar(r):
+			return false
+		case i == 0 && strings.ContainsRune(",[]{}#&*!|>'\"%@`", r):
+			return false
+		case i == 1 && strings.ContainsRune("-?:", prev) && yamlchar.IsWhitespaceChar(r):
+			return false
+		}
+		prev = r
+	}
+	return prev != yamlchar.MappingValueCharacter && txt != "-" && txt != "?"
+}
+
 func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
-- 
2.43.0


From 6c48be9d01ab435ec9a537af22f980ecfd31cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:37 +0000
Subject: [PATCH 21/71] fix: read single pairs of flow sequences as mappings

---
 engines/yayamls/decode/any.go      |  2 +-
 engines/yayamls/decode/iterator.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index abe3e9a..8833fdb 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -75,7 +75,7 @@ func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 }
 
 func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
-	entries := n.Entries()
+	entries := sequenceEntries(n)
 	s := make([]any, 0, len(entries))
 
 	savedExtractString := a.extractString
diff --git a/engines/yayamls/decode/iterator.go b/engines/yayamls/decode/iterator.go
index aa0ac1f..3f1280c 100644
--- a/engines/yayamls/decode/iterator.go
+++ b/engines/yayamls/decode/iterator.go
@@ -32,10 +32,24 @@ func newStreamIterator(s *ast.StreamNode) nodeIterator {
 func newSequenceIterator(s *ast.SequenceNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-		nodes: s.Entries(),
+		nodes: sequenceEntries(s),
 	}
 }
 
+// sequenceEntries returns entries of sequence, where single pairs of flow sequence
+// (e.g. [key: value]) are represented with mappings.
+func sequenceEntries(s *ast.SequenceNode) []ast.Node {
+	entries := s.Entries()
+	result := make([]ast.Node, 0, len(entries))
+	for _, entry := range entries {
+		if pair, ok := entry.(*ast.MappingEntryNode); ok {
+			entry = ast.NewMappingNode([]ast.Node{pair})
+		}
+		result = append(result, entry)
+	}
+	return result
+}
+
 func newMappingIterator(m *ast.MappingNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-- 
2.43.0


From 1bc30d328d893fb1ca38c6ab3e55733b1180ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:27 +0000
Subject: [PATCH 22/71] fix: accept flow indicators inside plain keys of block
 mappings

---
 engines/yayamls/parser/flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 57d4640..c1bec1d 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1082,9 +1082,9 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 
 func isPlainSafeToken(tok token.Token, ctx context) bool {
 	switch ctx {
-	case flowInContext, flowOutContext:
+	case flowInContext, flowOutContext, blockKeyContext:
 		return tok.Type == token.StringType
-	case blockKeyContext, flowKeyContext:
+	case flowKeyContext:
 		return tok.Type == token.StringType && tok.ConformsCharSet(yamlchar.PlainSafeCharSetType)
 	default:
 		return false
-- 
2.43.0


From c2ee83cb8be7a21a478cf8153198da7f89209159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:58 +0000
Subject: [PATCH 23/71] fix: treat quotes, ! and % inside plain scalars as text

---
 engines/yayamls/lexer/context.go | 58 +++++++++++++++++++-------------
 engines/yayamls/token/token.go   |  2 +-
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6efc386..faabbba 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -189,11 +189,13 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
-		tok.End = t.pos
-		tok.Type = token.TagType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(tagContextType)
+			tok.End = t.pos
+			tok.Type = token.TagType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.LiteralCharacter:
 		if t.lookbehind(token.MayPrecedeWord) {
 			c.switchContext(multilineBlockStartContextType)
@@ -211,22 +213,28 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		c.switchContext(singleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.SingleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(singleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.SingleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DoubleQuoteCharacter:
-		c.switchContext(doubleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.DoubleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(doubleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.DoubleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DirectiveCharacter:
-		tok.End = t.pos
-		tok.Type = token.DirectiveType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			tok.End = t.pos
+			tok.Type = token.DirectiveType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DocumentEndCharacter:
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
@@ -312,11 +320,13 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
-		tok.End = t.pos
-		tok.Type = token.TagType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(mayPrecedeWordInFlow) {
+			c.switchContext(tagContextType)
+			tok.End = t.pos
+			tok.Type = token.TagType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.SingleQuoteCharacter:
 		if t.lookbehind(func(tok token.Token) bool {
 			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index ba912fe..46bf2f1 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -156,7 +156,7 @@ func IsNonBreak(tok Token) bool {
 // MayPrecedeWord shows if given token may precede word (or string).
 func MayPrecedeWord(tok Token) bool {
 	switch tok.Type {
-	case SpaceType, TabType, LineBreakType, UnknownType:
+	case SpaceType, TabType, LineBreakType, BOMType, UnknownType:
 		return true
 	default:
 		return false
-- 
2.43.0


From 1ce69ee123265766adb4f60025d247ebb58a21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:22 +0000
Subject: [PATCH 24/71] fix: recognise comments inside flow collections

---
 engines/yayamls/lexer/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index faabbba..95dd820 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -305,6 +305,14 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Type = token.MappingEndType
 		tok.Origin = string([]rune{r})
 		return tok, true
+	case yamlchar.CommentCharacter:
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(commentContextType)
+			tok.End = t.pos
+			tok.Type = token.CommentType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.AnchorCharacter:
 		if t.lookbehind(mayPrecedeWordInFlow) {
 			tok.End = t.pos
-- 
2.43.0


From e3f647913fa331c11dd4edfd9be381e838fde068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:19 +0000
Subject: [PATCH 25/71] fix: accept properties of the first key of a block
 mapping

---
 engines/yayamls/parser/block.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 066878b..1772f5d 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -58,19 +58,18 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	ind.value++
 	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
 		properties = p.parseProperties(ind, ctx)
-		if !ast.ValidNode(properties) {
-			p.rollback()
-			properties = nil
-		} else {
-			p.commit()
-		}
-	} else {
-		p.rollback()
 	}
 	ind.value--
 
-	if !ast.ValidNode(p.parseComments()) {
-		return ast.NewInvalidNode()
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+	} else {
+		// there are no properties or they belong to the first entry of the collection
+		p.rollback()
+		properties = nil
+		if !ast.ValidNode(p.parseComments()) {
+			return ast.NewInvalidNode()
+		}
 	}
 
 	p.setCheckpoint()
-- 
2.43.0


From 3a3e8f732abdfb03d516e23f42b46e0b3b68dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 26/71] fix: require the content of block scalars to be
 indented more than their parent

---
 engines/yayamls/parser/block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 1772f5d..940b197 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -461,10 +461,10 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 	}
 	castedHeader, ok := header.(*ast.BlockHeaderNode)
 	if !ok {
-		ast.NewInvalidNode()
+		return ast.NewInvalidNode()
 	}
 	foldedInd := indentation{
-		value: ind.value,
+		value: ind.value + 1,
 		mode:  withLowerBoundIndentationMode,
 	}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
@@ -743,7 +743,7 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	literalInd := indentation{
-		value: ind.value,
+		value: ind.value + 1,
 		mode:  withLowerBoundIndentationMode,
 	}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-- 
2.43.0


From 5575c09cf7b119d60b80192590ac340e80714c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:01 +0000
Subject: [PATCH 27/71] fix: strip whitespace before line breaks of quoted
 scalars

---
 engines/yayamls/parser/flow.go | 46 +++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index c1bec1d..ebeed8e 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -186,11 +186,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedInLine(yamlchar.DoubleQuotedCharSetType, buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -231,11 +227,7 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	buf.WriteString(p.tok.Origin)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedInLine(yamlchar.DoubleQuotedCharSetType, buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -361,11 +353,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedInLine(yamlchar.SingleQuotedCharSetType, buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -404,11 +392,7 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	buf.WriteString(p.tok.Origin)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseQuotedInLine(yamlchar.SingleQuotedCharSetType, buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -426,6 +410,28 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	return ast.NewBasicNode(ast.TextType)
 }
 
+// parseQuotedInLine writes text of the current line into buffer. Trailing whitespaces are left unparsed,
+// because they are part of the text only if they are not followed by line break.
+// YAML specification: [114] nb-ns-double-in-line, [123] nb-ns-single-in-line
+func (p *parser) parseQuotedInLine(charSet yamlchar.CharSetType, buf *bytes.Buffer) {
+	for {
+		p.setCheckpoint()
+		savedLen := buf.Len()
+		for token.IsWhiteSpace(p.tok) {
+			buf.WriteString(p.tok.Origin)
+			p.next()
+		}
+		if p.tok.Type != token.StringType || !p.tok.ConformsCharSet(charSet) {
+			buf.Truncate(savedLen)
+			p.rollback()
+			return
+		}
+		p.commit()
+		buf.WriteString(p.tok.Origin)
+		p.next()
+	}
+}
+
 // YAML specification: [140] c-flow-mapping
 func (p *parser) parseFlowMapping(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.MappingStartType {
-- 
2.43.0


From 0b62262eb1763cfee9a970882b6492c8aff9652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:01 +0000
Subject: [PATCH 28/71] fix: do not derive indentation of block scalars from
 their empty lines

---
 engines/yayamls/parser/indents.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 41265d4..aba0efe 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -131,7 +131,9 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 		return ast.NewInvalidNode()
 	}
 	p.setCheckpoint()
-	lp := p.parseLinePrefix(ind, ctx)
+	// empty lines do not define indentation of the content
+	emptyInd := *ind
+	lp := p.parseLinePrefix(&emptyInd, ctx)
 	if !ast.ValidNode(lp) {
 		p.rollback()
 		lp = p.parseIndentLessThan(ind.value)
-- 
2.43.0


From 1fdde252363bdcf114299f8eff290796b5792640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:44 +0000
Subject: [PATCH 29/71] fix: read block scalars as strings instead of nulls,
 numbers and booleans

---
 engines/goyaml/decode/any.go     | 2 +-
 engines/yayamls/ast/node.go      | 2 ++
 engines/yayamls/decode/any.go    | 3 ++-
 engines/yayamls/encode/writer.go | 2 +-
 engines/yayamls/parser/block.go  | 4 ++--
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 4b67512..95cf36e 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -177,7 +177,7 @@ func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 		switch {
 		case schema.IsNull(n):
 			a.value = nil
-		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0:
+		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0:
 			a.value = n.Value
 		case schema.IsTimestamp(n):
 			a.value, err = schema.ToTimestamp(n.Value)
diff --git a/engines/yayamls/ast/node.go b/engines/yayamls/ast/node.go
index 8b767c0..df95a2c 100644
--- a/engines/yayamls/ast/node.go
+++ b/engines/yayamls/ast/node.go
@@ -132,6 +132,8 @@ const (
 	SingleQuotingType
 	// DoubleQuotingType means that string is enclosed in double quotes
 	DoubleQuotingType
+	// BlockQuotingType means that string is a content of literal or folded block scalar
+	BlockQuotingType
 )
 
 // Node is a single element of YAML AST
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 8833fdb..38ebdbd 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -194,7 +194,8 @@ func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	case schema.IsNull(n):
 		a.value = nil
 		return
-	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType:
+	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType,
+		n.QuotingType() == ast.BlockQuotingType:
 		a.value, err = n.Value()
 	case schema.IsTimestamp(n):
 		a.value, err = schema.ToTimestamp(n.Text())
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index b736e48..90b7c30 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -199,7 +199,7 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 		} else {
 			w.writeSingleQuotedText(txt)
 		}
-	case ast.DoubleQuotingType:
+	case ast.DoubleQuotingType, ast.BlockQuotingType:
 		w.writeDoubleQuotedText(txt)
 	default:
 		if isMultiline(txt) {
diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 940b197..c0690f4 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -495,7 +495,7 @@ func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.BlockQuotingType))
 }
 
 // YAML specification: [181] l-nb-diff-lines
@@ -789,7 +789,7 @@ func (p *parser) parseLiteralContent(ind *indentation, chomping ast.ChompingType
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.BlockQuotingType))
 }
 
 // YAML specification: [165] b-chomped-last
-- 
2.43.0


From 56a81fcba0d3dba81a0aab7dc78e612a7d4affe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:32 +0000
Subject: [PATCH 30/71] fix: stop decoding a struct after null value in
 generated code

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..2985c79 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From 7d309722f2a6ce3ad9e79089a3f933a46dfe5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:40 +0000
Subject: [PATCH 31/71] fix: skip sequence elements not fitting into an array
 in generated code

---
 generator/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 2985c79..6aeb726 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -242,6 +242,10 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 			fmt.Fprintln(g.out, whitespace+"    "+iterVar+"++")
 			fmt.Fprintln(g.out, whitespace+"  }")
+			// elements not fitting into the array must not be read as the following values
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"  }")
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-- 
2.43.0


From dee5052154aae03a92c61f46ddcfe39fde9b0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:40 +0000
Subject: [PATCH 32/71] fix: generate compilable code for byte arrays

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 6aeb726..5bd4ec5 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -226,7 +226,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
-			fmt.Fprintln(g.out, whitespace+"  copy("+outArg+", []byte(in.String()))")
+			fmt.Fprintln(g.out, whitespace+"  copy(("+outArg+")[:], []byte(in.String()))")
 			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			arrayStateVar := g.generateVarName("SeqState")
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..bb0df59 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -245,7 +245,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		elem := t.Elem()
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
-			fmt.Fprintln(g.out, whitespace+"out.InsertString(string("+inArg+"[:]))")
+			fmt.Fprintln(g.out, whitespace+"out.InsertString(string(("+inArg+")[:]))")
 		} else {
 			iVar := g.generateVarName()
 			fmt.Fprintln(g.out, whitespace+"out.StartSequence()")
-- 
2.43.0


From 62b99936003916344ef50ebfe5b63f13022ed9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:07 +0000
Subject: [PATCH 33/71] fix: generate compilable code for interface values

---
 engines/goyaml/engine.go | 5 +++--
 generator/decoder.go     | 4 ++--
 generator/encoder.go     | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..d636bec 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
 		fmt.Fprintln(dst, whitespace, "} else {")
 		return generator.ImplementationResultConditional, nil
 	}
@@ -89,9 +89,10 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/generator/decoder.go b/generator/decoder.go
index 5bd4ec5..009c386 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -312,7 +312,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+outArg+".UnmarshalYamly(in)")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -327,7 +327,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index bb0df59..345600b 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -315,7 +315,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -329,7 +329,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 87ad4342e2025b758c8e9467068947b9d9f878aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:07 +0000
Subject: [PATCH 34/71] fix: generate compilable code for pointers to types
 with custom marshalling

---
 engines/yayamls/engine.go | 2 +-
 generator/encoder.go      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c0a700..47aaa05 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -79,7 +79,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw("+inArg+".MarshalYAML())")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
diff --git a/generator/encoder.go b/generator/encoder.go
index 345600b..bac0693 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -164,7 +164,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+			fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			return nil
 		}
 
@@ -183,7 +183,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
 			return nil
 		}
 	}
-- 
2.43.0


From dd9300d8135c43568382532c1b0b46e248c7dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:36 +0000
Subject: [PATCH 35/71] fix: decode every supported form of timestamp in
 generated code

---
 generator/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 009c386..c4b3fc3 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -163,7 +163,7 @@ func (g *Generator) generateDecoderBody(
 		}
 
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
-		if reflect.PtrTo(t).Implements(unmarshalIface) {
+		if reflect.PtrTo(t).Implements(unmarshalIface) && customDecoders[t.String()] == "" {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
 			return nil
 		}
-- 
2.43.0


From 06eccc3fd99f36865801b1e4243e15613aa74bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:36 +0000
Subject: [PATCH 36/71] fix: generate compilable code for types with both yaml
 and text unmarshalling (goyaml)

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index c4b3fc3..724deee 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -165,6 +165,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) && customDecoders[t.String()] == "" {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
-- 
2.43.0


From 4422205ac489e135f807262d63e810c79c4e7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:43 +0000
Subject: [PATCH 37/71] fix: report values inserted after the tree is finished
 instead of replacing the tree

---
 engines/goyaml/encode/builder.go  | 8 +++++++-
 engines/yayamls/encode/builder.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 48b13bb..6f466ab 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -197,8 +197,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: the tree is already finished")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..16f2d11 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -174,8 +174,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: the tree is already finished")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From 16cac7491e3f8bdddae2477d133f8d54939f559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:44 +0000
Subject: [PATCH 38/71] fix: report unfinished trees in the result of builders

---
 engines/goyaml/encode/builder.go  | 11 +++++++++++
 engines/yayamls/encode/builder.go | 15 +++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 6f466ab..dc58d64 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -174,12 +174,23 @@ func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil {
+		err = b.checkFinished()
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
 	return root, err
 }
 
+// checkFinished returns an error if the tree has unfinished collections
+func (b *ASTBuilder) checkFinished() error {
+	if len(b.route) > 0 {
+		return fmt.Errorf("unfinished tree: currently at %s", kindToString(b.currentNode().Kind))
+	}
+	return nil
+}
+
 func insertNonNullValue[T any](b *ASTBuilder, val T, converter func(T) string, style yaml.Style) {
 	b.insertNode(
 		&yaml.Node{
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index 16f2d11..e60fe3c 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -152,12 +152,27 @@ func (b *ASTBuilder) InsertRawText(text []byte, err error) {
 func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil {
+		err = b.checkFinished()
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
 	return root, err
 }
 
+// checkFinished returns an error if the tree is empty or has unfinished collections
+func (b *ASTBuilder) checkFinished() error {
+	switch {
+	case b.root == nil:
+		return fmt.Errorf("nothing was inserted to tree")
+	case len(b.route) > 0:
+		return fmt.Errorf("unfinished tree: currently at %s", b.currentNode().Type())
+	default:
+		return nil
+	}
+}
+
 func insertNonNullValue[T any](t *ASTBuilder, val T, converter func(T) string, quotingType ast.QuotingType) {
 	t.insertNode(
 		ast.NewTextNode(
-- 
2.43.0


From 9d55e6f3d60d98ef5b008f35a04fcdf92c7f5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:29 +0000
Subject: [PATCH 39/71] fix: dereference aliases of outer anchors in the raw
 data (yayamls)

---
 engines/yayamls/decode/reader.go | 3 ++-
 engines/yayamls/encode/writer.go | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 444c983..32e378c 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -329,7 +329,8 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	w := encode.NewASTWriter()
+	// aliases are of no use without the nodes anchored outside of the subtree
+	w := encode.NewASTWriter(encode.WithAnchorsKeeper(&r.anchors))
 	v, err := w.WriteBytes(r.currentNode())
 	if err != nil {
 		r.appendError(err)
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 90b7c30..5f990af 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -3,6 +3,7 @@ package encode
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"strings"
 	"unicode"
@@ -36,6 +37,8 @@ type ASTWriter struct {
 	beforeSimple  string
 
 	metAnchors map[string]struct{}
+	// anchored nodes being written instead of their aliases
+	dereferenced map[ast.Node]struct{}
 
 	opts writeOptions
 }
@@ -47,6 +50,7 @@ func NewASTWriter(opts ...WriteOption) *ASTWriter {
 		indentation:      defaultBasicIndentation,
 		indentationDelta: defaultIndendationDelta,
 		metAnchors:       map[string]struct{}{},
+		dereferenced:     map[ast.Node]struct{}{},
 	}
 
 	for _, opt := range opts {
@@ -167,8 +171,12 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 		anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias)
 		if err != nil {
 			w.appendError(err)
+		} else if _, ok := w.dereferenced[anchored]; ok {
+			w.appendError(fmt.Errorf("node with anchor %q contains itself", alias))
 		} else if ast.ValidNode(anchored) {
+			w.dereferenced[anchored] = struct{}{}
 			anchored.Accept(w)
+			delete(w.dereferenced, anchored)
 		}
 		return
 	}
@@ -407,6 +415,7 @@ func (w *ASTWriter) reset() {
 	w.beforeSimple = ""
 	w.beforeComplex = ""
 	clear(w.metAnchors)
+	clear(w.dereferenced)
 }
 
 // canBePlain shows if the one-line text keeps its meaning being written without quotes.
-- 
2.43.0


From 3e49e1a362697e0570f628a4c85f8c7cf91e640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:48 +0000
Subject: [PATCH 40/71] fix: remember anchors of skipped subtrees (yayamls)

---
 engines/yayamls/decode/anchors.go  | 24 ++++++++++++++++++++++++
 engines/yayamls/decode/expected.go |  2 +-
 engines/yayamls/decode/reader.go   |  4 ++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..cad2b30 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -28,6 +28,30 @@ func (ak *anchorsKeeper) BindToLatestAnchor(n ast.Node) {
 	}
 }
 
+// BindNested binds anchors met in the subtree, which is not going to be visited.
+func (ak *anchorsKeeper) BindNested(n ast.Node) {
+	switch n := n.(type) {
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok {
+				ak.anchors[anchor.Text()] = n.Content()
+			}
+		}
+		ak.BindNested(n.Content())
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.BindNested(entry)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.BindNested(entry)
+		}
+	case *ast.MappingEntryNode:
+		ak.BindNested(n.Key())
+		ak.BindNested(n.Value())
+	}
+}
+
 func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
 	anchored, ok := ak.anchors[alias]
 	if !ok {
diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1061fb5..199a9d9 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -304,7 +304,7 @@ func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 			}
 		default:
 			return visitingResult{
-				conclusion: visitingConclusionConsume,
+				conclusion: visitingConclusionMatch,
 			}
 		}
 	}
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 32e378c..8a9960e 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -352,6 +352,7 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	r.anchors.BindNested(n)
 	r.popRoutePoint()
 	return n
 }
@@ -365,7 +366,10 @@ func (r *ASTReader) Skip() {
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
 		r.latestDenyError = nil
+		return
 	}
+	r.anchors.BindNested(r.currentNode())
+	r.popRoutePoint()
 }
 
 func (r *ASTReader) VisitStreamNode(n *ast.StreamNode) {
-- 
2.43.0


From e962c38b1d3c59ef5249a6b0c436b68b164882c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:03 +0000
Subject: [PATCH 41/71] fix: restore the last element before a checkpoint after
 the buffer is drained

---
 engines/yayamls/pkg/cpaccessor/accessor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..1c1e9b5 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -61,7 +61,9 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		a.bufIndicator++
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
-				// there are no checkpoints - buffer elements will not be used anymore
+				// there are no checkpoints - buffer elements will not be used anymore,
+				// except the last one, which is the value before the next checkpoint
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
@@ -103,7 +105,9 @@ func (a *CheckpointingAccessor[T]) Rollback() T {
 			a.bufIndicator++
 			if a.bufIndicator == len(a.buf) {
 				// checkpoint was at the last position in buffer - we are now ahead of it.
-				if len(a.checkpointsStack) == 0 {
+				if stackLen == 1 {
+					// and it is the only checkpoint, so the buffer is not used anymore
+					a.saved = restoredVal
 					a.buf = a.buf[:0]
 				}
 				a.bufIndicator = withoutBuffer
-- 
2.43.0


From 313269fd359776480e43d2334a64439446302cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 42/71] fix: read indicators at the start of the lines of block
 scalars as text

---
 engines/yayamls/parser/block.go  | 10 ++++++++++
 engines/yayamls/parser/parser.go | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index c0690f4..a1b3247 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -480,6 +480,11 @@ func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType)
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	p.blockScalarInd = ind
+	defer func() {
+		p.blockScalarInd = nil
+		p.tokSrc.UnsetRawMode()
+	}()
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 
 	p.setCheckpoint()
@@ -759,6 +764,11 @@ func (p *parser) parseLiteralContent(ind *indentation, chomping ast.ChompingType
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	p.blockScalarInd = ind
+	defer func() {
+		p.blockScalarInd = nil
+		p.tokSrc.UnsetRawMode()
+	}()
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 
 	p.setCheckpoint()
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 8787a5c..00e10aa 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -50,6 +50,8 @@ type parser struct {
 	state
 	errors         []error
 	balanceChecker balancecheck.BalanceChecker
+	// blockScalarInd is the indentation of the block scalar being parsed
+	blockScalarInd *indentation
 	deadEndFinder  deadend.Finder
 }
 
@@ -144,6 +146,7 @@ func (p *parser) Parse() (ast.Node, error) {
 
 func (p *parser) next() {
 	p.startOfLine = isStartOfLine(p.startOfLine, p.tok)
+	p.switchBlockScalarMode()
 	p.tok = p.tokSrc.Next()
 	switch p.tok.Type {
 	case token.EOFType:
@@ -163,6 +166,22 @@ func (p *parser) next() {
 	}
 }
 
+// switchBlockScalarMode makes the text of a block scalar raw from the end of its indentation,
+// so the indicators it starts with are read as text too.
+func (p *parser) switchBlockScalarMode() {
+	if p.blockScalarInd == nil {
+		return
+	}
+	switch p.tok.Type {
+	case token.LineBreakType:
+		p.tokSrc.UnsetRawMode()
+	case token.SpaceType:
+		if p.tok.Start.Column > 0 && p.tok.Start.Column >= p.blockScalarInd.value {
+			p.tokSrc.SetRawMode()
+		}
+	}
+}
+
 func isStartOfLine(startOfLine bool, tok token.Token) bool {
 	switch tok.Type {
 	case token.LineBreakType:
@@ -193,6 +212,7 @@ func (p *parser) release() {
 	p.balanceChecker.Reset()
 	p.deadEndFinder.Reset()
 	p.errors = p.errors[:0]
+	p.blockScalarInd = nil
 	p.state = state{startOfLine: true}
 	parserPool.Put(p)
 }
-- 
2.43.0


From 31ca09141bf3d5dff21848bca2094a134b482faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:19 +0000
Subject: [PATCH 43/71] fix: normalise line breaks in the text of multi-line
 scalars

---
 engines/yayamls/parser/block.go   | 8 ++++----
 engines/yayamls/parser/indents.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index a1b3247..1d12375 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -516,7 +516,7 @@ func (p *parser) parseDiffLines(ind *indentation, buf *bytes.Buffer) ast.Node {
 			p.rollback()
 			break
 		}
-		buf.WriteString(p.tok.Origin)
+		buf.WriteByte('\n')
 		p.next()
 		if !ast.ValidNode(p.parseSameLines(ind, buf)) {
 			buf.Truncate(savedLen)
@@ -616,7 +616,7 @@ func (p *parser) parseSpacedLineBreak(ind *indentation, buf *bytes.Buffer) ast.N
 	if p.hasErrors() || p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 
 	savedLen := buf.Len()
 
@@ -817,7 +817,7 @@ func (p *parser) parseChompedLast(chomping ast.ChompingType, buf *bytes.Buffer)
 	case ast.ClipChompingType, ast.KeepChompingType:
 		switch p.tok.Type {
 		case token.LineBreakType:
-			buf.WriteString(p.tok.Origin)
+			buf.WriteByte('\n')
 		case token.EOFType:
 		default:
 			return ast.NewInvalidNode()
@@ -925,7 +925,7 @@ func (p *parser) parseLiteralNext(ind *indentation, buf *bytes.Buffer) ast.Node
 		return ast.NewInvalidNode()
 	}
 	savedLen := buf.Len()
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 	p.next()
 	if !ast.ValidNode(p.parseLiteralText(ind, buf)) {
 		buf.Truncate(savedLen)
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index aba0efe..b2c55c8 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -146,7 +146,7 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	if p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 	p.next()
 	return ast.NewBasicNode(ast.IndentType)
 }
-- 
2.43.0


From ce82d5995b19b932b825cf53a564ddfc6c666906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:23 +0000
Subject: [PATCH 44/71] fix: reject opening brackets inside plain scalars of
 flow collections

---
 engines/yayamls/lexer/context.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 95dd820..d47318d 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -278,21 +278,17 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SequenceStartCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
-			c.switchContext(flowContextType)
-			tok.End = t.pos
-			tok.Type = token.SequenceStartType
-			tok.Origin = string([]rune{r})
-			return tok, true
-		}
+		c.switchContext(flowContextType)
+		tok.End = t.pos
+		tok.Type = token.SequenceStartType
+		tok.Origin = string([]rune{r})
+		return tok, true
 	case yamlchar.MappingStartCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
-			c.switchContext(flowContextType)
-			tok.End = t.pos
-			tok.Type = token.MappingStartType
-			tok.Origin = string([]rune{r})
-			return tok, true
-		}
+		c.switchContext(flowContextType)
+		tok.End = t.pos
+		tok.Type = token.MappingStartType
+		tok.Origin = string([]rune{r})
+		return tok, true
 	case yamlchar.SequenceEndCharacter:
 		c.revertContext()
 		tok.End = t.pos
-- 
2.43.0


From ae9a1bf4f6490fa226788d517ea416e121f71715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 45/71] fix: read comments after a block scalar as comments,
 whatever their indentation

---
 engines/yayamls/parser/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 1d12375..1832400 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -907,6 +907,9 @@ func (p *parser) parseTrailComments(ind *indentation) ast.Node {
 	if p.tok.Type != token.LineBreakType && p.tok.Type != token.EOFType {
 		return ast.NewInvalidNode()
 	}
+	// the scalar is over, its indentation does not concern the next comments
+	p.blockScalarInd = nil
+	p.tokSrc.UnsetRawMode()
 	p.next()
 	for {
 		p.setCheckpoint()
-- 
2.43.0


From 2a596afae7b258b6efce81c8d3b08b3896548177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:16 +0000
Subject: [PATCH 46/71] fix: report a node containing itself in the raw data
 instead of exhausting the stack (goyaml)

---
 engines/goyaml/decode/raw.go    | 48 ++++++++++++++++++++-------------
 engines/goyaml/decode/reader.go |  6 ++++-
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..9aedfcc 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -1,6 +1,10 @@
 package decode
 
-import "gopkg.in/yaml.v3"
+import (
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
 
 // rawTransformer is used to transform AST before serializing to bytes.
 // The goal of transformation is to provide full context to the subtree,
@@ -19,14 +23,19 @@ import "gopkg.in/yaml.v3"
 // in "inner" element.
 type rawTransformer struct {
 	topLevelAnchor string
-	metAnchors     map[string]struct{}
+	metAnchors     map[string]*yaml.Node
+
+	// collections being visited
+	visiting map[*yaml.Node]struct{}
+	err      error
 
 	dereferencedAliases []dereferencedAliasInfo
 }
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
-		metAnchors: map[string]struct{}{},
+		metAnchors: map[string]*yaml.Node{},
+		visiting:   map[*yaml.Node]struct{}{},
 	}
 }
 
@@ -36,37 +45,40 @@ type dereferencedAliasInfo struct {
 	idx    int
 }
 
-func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
+func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
 	rt.topLevelAnchor = n.Anchor
 	n.Anchor = ""
 	rt.visitNode(n)
-	if n.Kind == yaml.AliasNode {
-		n = n.Alias
-	}
-	return n
+	return n, rt.err
 }
 
 func (rt *rawTransformer) visitNode(n *yaml.Node) {
 	if n.Anchor != "" {
-		rt.metAnchors[n.Anchor] = struct{}{}
+		rt.metAnchors[n.Anchor] = n
 	}
 	switch n.Kind {
-	case yaml.AliasNode:
-		rt.visitNode(n.Alias)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
+		rt.visiting[n] = struct{}{}
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
-					n.Content[i] = child.Alias
-					rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-						parent: n,
-						alias:  child,
-						idx:    i,
-					})
+				if rt.metAnchors[child.Value] == child.Alias {
+					continue
+				}
+				if _, ok := rt.visiting[child.Alias]; ok {
+					rt.err = fmt.Errorf("node with anchor %q contains itself", child.Value)
+					continue
 				}
+				n.Content[i] = child.Alias
+				rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
+					parent: n,
+					alias:  child,
+					idx:    i,
+				})
+				child = child.Alias
 			}
 			rt.visitNode(child)
 		}
+		delete(rt.visiting, n)
 	}
 }
 
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 3da9db1..8d92465 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -322,7 +322,11 @@ func (r *ASTReader) Raw() []byte {
 	}
 	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
+	var v []byte
+	n, err := transformer.transform(curNode)
+	if err == nil {
+		v, err = yaml.Marshal(n)
+	}
 	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
-- 
2.43.0


From 29883dfe6fec66b2a06a1e9009c3ae117f9755af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:16 +0000
Subject: [PATCH 47/71] fix: report an alias of a node containing it to typed
 reads

---
 engines/goyaml/decode/reader.go  | 15 +++++++++++++++
 engines/yayamls/decode/reader.go | 13 +++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 8d92465..821039b 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -389,6 +389,10 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
+		if r.isVisiting(n.Alias) {
+			r.appendError(fmt.Errorf("node with anchor %q contains itself", n.Value))
+			return
+		}
 		// anchored node takes the place of alias node, so the alias is not visited again
 		// after the anchored node is processed
 		r.swapRoutePoint(routePoint{
@@ -526,6 +530,17 @@ func (r *ASTReader) swapRoutePoint(point routePoint) {
 	r.route[len(r.route)-1] = point
 }
 
+// isVisiting reports whether the node is being visited at the moment,
+// i.e. the current node lies inside of it.
+func (r *ASTReader) isVisiting(n *yaml.Node) bool {
+	for _, point := range r.route {
+		if point.node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) setLatestDeny(err *denyError) {
 	r.latestDenyError = yamly.DenyError(err)
 }
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 8a9960e..f037c8c 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -395,6 +395,8 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := r.anchors.DereferenceAlias(n.Text())
 	if err != nil {
 		r.appendError(err)
+	} else if r.isVisiting(anchored) {
+		r.appendError(fmt.Errorf("node with anchor %q contains itself", n.Text()))
 	} else {
 		// anchored node takes the place of alias node, so the alias is not visited again
 		// after the anchored node is processed
@@ -629,6 +631,17 @@ func (r *ASTReader) swapRoutePoint(point routePoint) {
 	r.route[len(r.route)-1] = point
 }
 
+// isVisiting reports whether the node is being visited at the moment,
+// i.e. the current node lies inside of it.
+func (r *ASTReader) isVisiting(n ast.Node) bool {
+	for _, point := range r.route {
+		if point.node == n {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) setLatestDeny(err *denyError) {
 	r.latestDenyError = yamly.DenyError(err)
 }
-- 
2.43.0


From 2f321745a03fda2f449933c0c98bb7a411ff588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:38 +0000
Subject: [PATCH 48/71] fix: deny unsigned reads of texts which do not
 represent unsigned integers

---
 engines/goyaml/decode/expected.go  | 10 ++++++++++
 engines/goyaml/decode/reader.go    |  2 +-
 engines/yayamls/decode/expected.go | 10 ++++++++++
 engines/yayamls/decode/reader.go   |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/expected.go b/engines/goyaml/decode/expected.go
index 065d6a4..0857c63 100644
--- a/engines/goyaml/decode/expected.go
+++ b/engines/goyaml/decode/expected.go
@@ -47,6 +47,16 @@ func (expectInteger) process(n *yaml.Node, prev visitingResult) visitingResult {
 	return processTerminalNode(n, prev, schema.IsInteger)
 }
 
+type expectUnsigned struct{}
+
+func (expectUnsigned) name() string {
+	return "ExpectUnsigned"
+}
+
+func (expectUnsigned) process(n *yaml.Node, prev visitingResult) visitingResult {
+	return processTerminalNode(n, prev, schema.IsUnsignedInteger)
+}
+
 type expectBoolean struct{}
 
 func (expectBoolean) name() string {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 821039b..e17ea78 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -174,7 +174,7 @@ func (r *ASTReader) Unsigned(bitSize int) uint64 {
 	if r.hasFatalError() {
 		return 0
 	}
-	r.currentExpecter = expectInteger{}
+	r.currentExpecter = expectUnsigned{}
 	r.visitCurrentNode()
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 199a9d9..e6287dc 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -54,6 +54,16 @@ func (expectInteger) process(n ast.Node, prev visitingResult) visitingResult {
 	return processTerminalNode(n, prev, schema.IsInteger)
 }
 
+type expectUnsigned struct{}
+
+func (expectUnsigned) name() string {
+	return "ExpectUnsigned"
+}
+
+func (expectUnsigned) process(n ast.Node, prev visitingResult) visitingResult {
+	return processTerminalNode(n, prev, schema.IsUnsignedInteger)
+}
+
 type expectBoolean struct{}
 
 func (expectBoolean) name() string {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index f037c8c..7ddd76c 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -183,7 +183,7 @@ func (r *ASTReader) Unsigned(bitSize int) uint64 {
 	if r.hasFatalError() {
 		return 0
 	}
-	r.currentExpecter = expectInteger{}
+	r.currentExpecter = expectUnsigned{}
 	r.visitCurrentNode()
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
-- 
2.43.0


From d7d7918d47257718d9c912c59d4c3558c335507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:35 +0000
Subject: [PATCH 49/71] fix: report nodes containing themselves through other
 nodes in the raw data (goyaml)

---
 engines/goyaml/decode/raw.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index 9aedfcc..fef1ec9 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -58,16 +58,16 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 	}
 	switch n.Kind {
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
+		if _, ok := rt.visiting[n]; ok {
+			rt.err = fmt.Errorf("node at line %d contains itself", n.Line)
+			return
+		}
 		rt.visiting[n] = struct{}{}
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
 				if rt.metAnchors[child.Value] == child.Alias {
 					continue
 				}
-				if _, ok := rt.visiting[child.Alias]; ok {
-					rt.err = fmt.Errorf("node with anchor %q contains itself", child.Value)
-					continue
-				}
 				n.Content[i] = child.Alias
 				rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
 					parent: n,
-- 
2.43.0


From 3a64b6d38b9bf66ed88e75978d2a1d7fd5c3fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:35 +0000
Subject: [PATCH 50/71] fix: leave denied nodes behind when denials are
 collected

---
 engines/goyaml/decode/reader.go  | 2 ++
 engines/yayamls/decode/reader.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index e17ea78..d52fefb 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -548,6 +548,8 @@ func (r *ASTReader) setLatestDeny(err *denyError) {
 func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
+		// the denied node is left behind, otherwise it would be denied again and again
+		r.popRoutePoint()
 	} else if r.fatalError == nil {
 		r.setFatalError(err)
 	}
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 7ddd76c..6c17281 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -649,6 +649,9 @@ func (r *ASTReader) setLatestDeny(err *denyError) {
 func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
+		// the denied node is left behind, otherwise it would be denied again and again
+		r.anchors.BindNested(r.currentNode())
+		r.popRoutePoint()
 	} else if r.fatalError == nil {
 		r.setFatalError(err)
 	}
-- 
2.43.0


From 57a0b5dd55985299998d21ffc66bae733381b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:42 +0000
Subject: [PATCH 51/71] fix: generate compilable code for pointers to
 interfaces

---
 engines/goyaml/engine.go  | 2 +-
 engines/yayamls/engine.go | 4 ++--
 generator/decoder.go      | 4 ++--
 generator/encoder.go      | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index d636bec..2878177 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -87,7 +87,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
 	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 47aaa05..0f15496 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -87,7 +87,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yayamls.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yayamls.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  in.AddError(m.UnmarshalYAML(in.Raw()))")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
@@ -97,7 +97,7 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 
 func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, inArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+inArg+".(yayamls.Marshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
diff --git a/generator/decoder.go b/generator/decoder.go
index 724deee..b6b01b2 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -313,7 +313,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"("+outArg+").UnmarshalYamly(in)")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -327,7 +327,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
diff --git a/generator/encoder.go b/generator/encoder.go
index bac0693..4a740c6 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -315,7 +315,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -329,7 +329,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 176f9d0d078521c8c8614374304ba6c93b0c608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:50 +0000
Subject: [PATCH 52/71] fix: generate working code for inlined fields

Named inlined fields were accessed as if they were promoted, which does not compile; nil embedded
pointers made encoders panic, pointers embedded deeper made decoders panic, and embedded pointers
which are not inlined were decoded from null as pointers to zero values.
---
 generator/decoder.go   | 33 +++++++++++++++++-------
 generator/encoder.go   | 15 ++++++++---
 generator/generator.go | 57 ++++++++++++++++++++++++++++++++++--------
 3 files changed, 82 insertions(+), 23 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index b6b01b2..d9bc32d 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -80,13 +80,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer {
-			continue
-		}
-		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
-	}
+	g.generateInlinedPointers(t, "out")
 
 	fields, err := g.getStructFields(t)
 	if err != nil {
@@ -117,7 +111,28 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
+// generateInlinedPointers sets the inlined fields of the struct arg which are pointers.
+func (g *Generator) generateInlinedPointers(t reflect.Type, arg string) {
+	for i := 0; i < t.NumField(); i++ {
+		f := t.Field(i)
+		if !g.isInlined(f) {
+			continue
+		}
+		ft := f.Type
+		if ft.Kind() == reflect.Pointer {
+			ft = ft.Elem()
+		}
+		if ft.Kind() != reflect.Struct {
+			continue
+		}
+		if f.Type.Kind() == reflect.Pointer {
+			fmt.Fprintln(g.out, "  "+arg+"."+f.Name+" = new("+g.extractTypeName(ft)+")")
+		}
+		g.generateInlinedPointers(ft, arg+"."+f.Name)
+	}
+}
+
+func (g *Generator) generateStructFieldDecoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
@@ -129,7 +144,7 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 	}
 
 	fmt.Fprintln(g.out, "    case \""+name+"\":")
-	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
+	return g.generateDecoderBody(f.Type, f.selector("out"), tags, 6, true)
 }
 
 func (g *Generator) generateDecoderBody(
diff --git a/generator/encoder.go b/generator/encoder.go
index 4a740c6..3977770 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -104,7 +104,7 @@ func (g *Generator) generateStructEncoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldEncoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
@@ -116,14 +116,23 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 	}
 	canBeNull := !(g.omitempty || tags.omitempty)
 
+	// the fields of an inlined nil pointer do not exist
+	var conditions []string
+	for _, pointer := range f.hostPointers("in") {
+		conditions = append(conditions, pointer+" != nil")
+	}
 	if !canBeNull {
-		fmt.Fprintln(g.out, "  if "+g.generateNotEmptyCheck(f.Type, "in."+f.Name)+" {")
+		conditions = append(conditions, g.generateNotEmptyCheck(f.Type, f.selector("in")))
+	}
+
+	if len(conditions) > 0 {
+		fmt.Fprintln(g.out, "  if "+strings.Join(conditions, " && ")+" {")
 	} else {
 		fmt.Fprintln(g.out, "  {")
 	}
 
 	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
-	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
+	if err := g.generateEncoderBody(f.Type, f.selector("in"), tags, 6, canBeNull); err != nil {
 		return err
 	}
 	fmt.Fprintln(g.out, "  }")
diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..d99c195 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -385,20 +385,53 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
-func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, error) {
+// structField is a field of a struct or of its inlined fields.
+type structField struct {
+	reflect.StructField
+
+	// inlined fields leading to the field, starting from the outermost one
+	hosts []reflect.StructField
+}
+
+// selector returns the expression denoting the field of the struct arg.
+func (f structField) selector(arg string) string {
+	for _, host := range f.hosts {
+		arg += "." + host.Name
+	}
+	return arg + "." + f.Name
+}
+
+// hostPointers returns the expressions denoting the pointers
+// which are dereferenced to access the field of the struct arg.
+func (f structField) hostPointers(arg string) []string {
+	var pointers []string
+	for _, host := range f.hosts {
+		arg += "." + host.Name
+		if host.Type.Kind() == reflect.Pointer {
+			pointers = append(pointers, arg)
+		}
+	}
+	return pointers
+}
+
+func (g *Generator) isInlined(f reflect.StructField) bool {
+	tags := parseTags(f.Tag)
+	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
+}
+
+func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	if t.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("expected struct, but got %s", t)
 	}
 
 	var (
-		embeddedFields []reflect.StructField
-		fields         []reflect.StructField
+		embeddedFields []structField
+		fields         []structField
 	)
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if !(f.Anonymous && g.inlineEmbedded && tags.name == "") && !tags.inline {
+		if !g.isInlined(f) {
 			continue
 		}
 
@@ -412,33 +445,35 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
+			for i := range fs {
+				fs[i].hosts = append([]reflect.StructField{f}, fs[i].hosts...)
+			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
 		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
 			// kind is basic
 			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, f)
+				fields = append(fields, structField{StructField: f})
 			}
 		}
 	}
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline {
+		if g.isInlined(f) {
 			continue
 		}
 
 		c := []rune(f.Name)[0]
 		if unicode.IsUpper(c) {
-			fields = append(fields, f)
+			fields = append(fields, structField{StructField: f})
 		}
 	}
 
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
-func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
-	fields := make([]reflect.StructField, 0, len(firstFields))
+func mergeStructFields(firstFields, secondFields []structField) []structField {
+	fields := make([]structField, 0, len(firstFields))
 	used := make(map[string]bool)
 	for _, f := range secondFields {
 		used[f.Name] = true
-- 
2.43.0


From 5b10897c4bf4f9077d4a151faa9c10b87c634447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:35 +0000
Subject: [PATCH 53/71] fix: encode nil interfaces as null in code generated
 for yayamls

---
 engines/yayamls/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 0f15496..ff38bc1 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -99,6 +99,8 @@ func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, in
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
+	fmt.Fprintln(dst, whitespace+"} else if ("+inArg+") == nil {")
+	fmt.Fprintln(dst, whitespace+"  out.InsertNull()")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(nil, nil)")
-- 
2.43.0


From 9321b8a965a98601b4497df3369e8096d60c634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:35 +0000
Subject: [PATCH 54/71] fix: report unknown fields whose value is null in
 strict mode

---
 generator/decoder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index d9bc32d..b94286c 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -91,6 +91,9 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  for structMappingState.HasUnprocessedItems() {")
 	fmt.Fprintln(g.out, "    key := in.String()")
 	fmt.Fprintln(g.out, "    if in.TryNull() {")
+	if g.disallowUnknownFields {
+		g.generateUnknownFieldCheck(fields)
+	}
 	fmt.Fprintln(g.out, "      continue")
 	fmt.Fprintln(g.out, "    }")
 	fmt.Fprintln(g.out, "    switch key {")
@@ -111,6 +114,25 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
+// generateUnknownFieldCheck reports the key if it is none of the fields.
+func (g *Generator) generateUnknownFieldCheck(fields []structField) {
+	fmt.Fprintln(g.out, "      switch key {")
+	for _, f := range fields {
+		tags := parseTags(f.Tag)
+		if tags.omitField {
+			continue
+		}
+		name := f.Name
+		if tags.name != "" {
+			name = tags.name
+		}
+		fmt.Fprintln(g.out, "      case \""+name+"\":")
+	}
+	fmt.Fprintln(g.out, "      default:")
+	fmt.Fprintln(g.out, "        in.AddError(&yamly.UnknownFieldError{Field: key})")
+	fmt.Fprintln(g.out, "      }")
+}
+
 // generateInlinedPointers sets the inlined fields of the struct arg which are pointers.
 func (g *Generator) generateInlinedPointers(t reflect.Type, arg string) {
 	for i := 0; i < t.NumField(); i++ {
-- 
2.43.0


From 11c5eddd699430487af01a440f819d4f09f3aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:36 +0000
Subject: [PATCH 55/71] fix: quote the names of fields in generated code

---
 generator/decoder.go | 4 ++--
 generator/encoder.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index b94286c..011a684 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -126,7 +126,7 @@ func (g *Generator) generateUnknownFieldCheck(fields []structField) {
 		if tags.name != "" {
 			name = tags.name
 		}
-		fmt.Fprintln(g.out, "      case \""+name+"\":")
+		fmt.Fprintln(g.out, "      case "+strconv.Quote(name)+":")
 	}
 	fmt.Fprintln(g.out, "      default:")
 	fmt.Fprintln(g.out, "        in.AddError(&yamly.UnknownFieldError{Field: key})")
@@ -165,7 +165,7 @@ func (g *Generator) generateStructFieldDecoder(f structField) error {
 		name = tags.name
 	}
 
-	fmt.Fprintln(g.out, "    case \""+name+"\":")
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, f.selector("out"), tags, 6, true)
 }
 
diff --git a/generator/encoder.go b/generator/encoder.go
index 3977770..56f74b8 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/KSpaceer/yamly"
@@ -131,7 +132,7 @@ func (g *Generator) generateStructFieldEncoder(f structField) error {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
 	if err := g.generateEncoderBody(f.Type, f.selector("in"), tags, 6, canBeNull); err != nil {
 		return err
 	}
-- 
2.43.0


From d0e53b09b0e355b78dc84054ac1a81a90bf79b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:51 +0000
Subject: [PATCH 56/71] fix: do not pass a nil node to UnmarshalYAML after a
 decoding error

---
 engines/goyaml/engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index 2878177..26571a2 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,9 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
+		fmt.Fprintln(dst, whitespace+"  if node := extIn.Node(); node != nil {")
+		fmt.Fprintln(dst, whitespace+"    in.AddError(("+outArg+").UnmarshalYAML(node))")
+		fmt.Fprintln(dst, whitespace+"  }")
 		fmt.Fprintln(dst, whitespace, "} else {")
 		return generator.ImplementationResultConditional, nil
 	}
@@ -89,7 +91,9 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
+	fmt.Fprintln(dst, whitespace+"    if node := extIn.Node(); node != nil {")
+	fmt.Fprintln(dst, whitespace+"      in.AddError(m.UnmarshalYAML(node))")
+	fmt.Fprintln(dst, whitespace+"    }")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"  }")
-- 
2.43.0


From 0cce648c85633bafeaf7d3d679fd74921c8508ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 57/71] fix: compare trees with their nesting

---
 engines/yayamls/ast/astcmp/comparator.go | 43 ++++++++++++------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 7496c50..6c2a54d 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -36,6 +36,10 @@ func (c *Comparator) Equal(first, second ast.Node) bool {
 		if !firstOk && !secondOk {
 			break
 		}
+		if firstOk != secondOk {
+			result = false
+			break
+		}
 		if !c.compareNodes(firstNode, secondNode) {
 			result = false
 			break
@@ -49,8 +53,9 @@ func (c *Comparator) Equal(first, second ast.Node) bool {
 }
 
 func (c *Comparator) compareNodes(first, second ast.Node) bool {
+	// nil stands for an absent child or for the end of a collection
 	if first == nil || second == nil {
-		return false
+		return first == nil && second == nil
 	}
 	if first.Type() != second.Type() {
 		return false
@@ -76,6 +81,7 @@ func (t *comparingVisitor) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		doc.Accept(t)
 	}
+	t.cmpChan <- nil
 }
 
 func (t *comparingVisitor) VisitTagNode(n *ast.TagNode) {
@@ -96,13 +102,8 @@ func (t *comparingVisitor) VisitTextNode(n *ast.TextNode) {
 
 func (t *comparingVisitor) VisitContentNode(n *ast.ContentNode) {
 	t.cmpChan <- n
-	properties, content := n.Properties(), n.Content()
-	if properties != nil {
-		properties.Accept(t)
-	}
-	if content != nil {
-		content.Accept(t)
-	}
+	t.visitChild(n.Properties())
+	t.visitChild(n.Content())
 }
 
 func (t *comparingVisitor) VisitSequenceNode(n *ast.SequenceNode) {
@@ -110,6 +111,7 @@ func (t *comparingVisitor) VisitSequenceNode(n *ast.SequenceNode) {
 	for _, entry := range n.Entries() {
 		entry.Accept(t)
 	}
+	t.cmpChan <- nil
 }
 
 func (t *comparingVisitor) VisitMappingNode(n *ast.MappingNode) {
@@ -117,17 +119,13 @@ func (t *comparingVisitor) VisitMappingNode(n *ast.MappingNode) {
 	for _, entry := range n.Entries() {
 		entry.Accept(t)
 	}
+	t.cmpChan <- nil
 }
 
 func (t *comparingVisitor) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	t.cmpChan <- n
-	key, value := n.Key(), n.Value()
-	if key != nil {
-		key.Accept(t)
-	}
-	if value != nil {
-		value.Accept(t)
-	}
+	t.visitChild(n.Key())
+	t.visitChild(n.Value())
 }
 
 func (t *comparingVisitor) VisitNullNode(n *ast.NullNode) {
@@ -136,11 +134,14 @@ func (t *comparingVisitor) VisitNullNode(n *ast.NullNode) {
 
 func (t *comparingVisitor) VisitPropertiesNode(n *ast.PropertiesNode) {
 	t.cmpChan <- n
-	anchor, tag := n.Anchor(), n.Tag()
-	if anchor != nil {
-		anchor.Accept(t)
-	}
-	if tag != nil {
-		tag.Accept(t)
+	t.visitChild(n.Anchor())
+	t.visitChild(n.Tag())
+}
+
+func (t *comparingVisitor) visitChild(n ast.Node) {
+	if !ast.ValidNode(n) {
+		t.cmpChan <- nil
+		return
 	}
+	n.Accept(t)
 }
-- 
2.43.0


From 1329ca060c002d8a57e53c13585b1528d9c234c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 58/71] fix: report errors of the destination when printing a
 tree

---
 engines/yayamls/ast/astprint/printer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/ast/astprint/printer.go b/engines/yayamls/ast/astprint/printer.go
index 099e5f0..84584ba 100644
--- a/engines/yayamls/ast/astprint/printer.go
+++ b/engines/yayamls/ast/astprint/printer.go
@@ -54,10 +54,26 @@ func (p *Printer) Print(root ast.Node, w io.Writer) error {
 	if root == nil {
 		return fmt.Errorf("nil ast.Node")
 	}
-	workingPrinter := p.cloneWithWriter(w)
+	ew := &errWriter{w: w}
+	workingPrinter := p.cloneWithWriter(ew)
 	workingPrinter.printValue(root)
 	root.Accept(workingPrinter)
-	return nil
+	return ew.err
+}
+
+// errWriter stops writing after the first error and keeps it.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errWriter) Write(data []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	n, err := e.w.Write(data)
+	e.err = err
+	return n, err
 }
 
 func (p *Printer) printValueWithLevel(n ast.Node) {
-- 
2.43.0


From 082764a9f630370ad8975d1e81fcd32d1a548dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 59/71] fix: read a node nothing was decoded into as null
 (goyaml)

---
 engines/goyaml/decode/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index d52fefb..b8a8a03 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -127,8 +127,12 @@ func NewASTReader(tree *yaml.Node, opts ...ReaderOption) *ASTReader {
 
 func (r *ASTReader) setAST(tree *yaml.Node) {
 	r.reset()
-	if tree.Kind == yaml.DocumentNode {
+	switch {
+	case tree.Kind == yaml.DocumentNode:
 		tree = tree.Content[0]
+	case tree.IsZero():
+		// nothing was decoded into the node: as in yaml.v3, it means null
+		tree = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}
 	}
 	r.pushRoutePoint(routePoint{
 		node: tree,
-- 
2.43.0


From 608492e0b4328da3d3ee17170dd907ed2af2f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 60/71] fix: do not change the tree while making raw data
 (goyaml)

---
 engines/goyaml/decode/raw.go    | 44 ++++++++++-----------------------
 engines/goyaml/decode/reader.go |  1 -
 2 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index fef1ec9..e9351a1 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -22,14 +22,11 @@ import (
 // transformer will replace *anchor with value, because there is no anchor "&anchor"
 // in "inner" element.
 type rawTransformer struct {
-	topLevelAnchor string
-	metAnchors     map[string]*yaml.Node
+	metAnchors map[string]*yaml.Node
 
 	// collections being visited
 	visiting map[*yaml.Node]struct{}
 	err      error
-
-	dereferencedAliases []dereferencedAliasInfo
 }
 
 func newRawTransformer() rawTransformer {
@@ -39,52 +36,37 @@ func newRawTransformer() rawTransformer {
 	}
 }
 
-type dereferencedAliasInfo struct {
-	parent *yaml.Node
-	alias  *yaml.Node
-	idx    int
-}
-
+// transform returns a transformed copy: the tree itself may be in use by other readers.
 func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
-	rt.topLevelAnchor = n.Anchor
-	n.Anchor = ""
-	rt.visitNode(n)
+	n = rt.copyNode(n, "")
 	return n, rt.err
 }
 
-func (rt *rawTransformer) visitNode(n *yaml.Node) {
-	if n.Anchor != "" {
-		rt.metAnchors[n.Anchor] = n
+func (rt *rawTransformer) copyNode(n *yaml.Node, anchor string) *yaml.Node {
+	result := *n
+	result.Anchor = anchor
+	if anchor != "" {
+		rt.metAnchors[anchor] = n
 	}
 	switch n.Kind {
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		if _, ok := rt.visiting[n]; ok {
 			rt.err = fmt.Errorf("node at line %d contains itself", n.Line)
-			return
+			return &result
 		}
 		rt.visiting[n] = struct{}{}
+		result.Content = make([]*yaml.Node, len(n.Content))
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
 				if rt.metAnchors[child.Value] == child.Alias {
+					result.Content[i] = child
 					continue
 				}
-				n.Content[i] = child.Alias
-				rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-					parent: n,
-					alias:  child,
-					idx:    i,
-				})
 				child = child.Alias
 			}
-			rt.visitNode(child)
+			result.Content[i] = rt.copyNode(child, child.Anchor)
 		}
 		delete(rt.visiting, n)
 	}
-}
-
-func (rt *rawTransformer) restore(n *yaml.Node) {
-	n.Anchor = rt.topLevelAnchor
-	for _, deref := range rt.dereferencedAliases {
-		deref.parent.Content[deref.idx] = deref.alias
-	}
+	return &result
 }
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index b8a8a03..3d4c7ff 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -331,7 +331,6 @@ func (r *ASTReader) Raw() []byte {
 	if err == nil {
 		v, err = yaml.Marshal(n)
 	}
-	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
 		return nil
-- 
2.43.0


From be4fc986c18f0d754a85e56c3c1dac5ab486de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 61/71] fix: parse deeply nested flow collections

---
 engines/yayamls/parser/flow.go   | 41 ++++++++++++++++++++++++++++++--
 engines/yayamls/parser/parser.go | 12 ++++++++--
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index ebeed8e..90376f3 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -121,9 +121,9 @@ func (p *parser) parseFlowContent(ind *indentation, ctx context) ast.Node {
 func (p *parser) parseFlowJSONContent(ind *indentation, ctx context) ast.Node {
 	switch p.tok.Type {
 	case token.SequenceStartType:
-		return p.parseFlowSequence(ind, ctx)
+		return p.parseFlowCollectionOnce(ind, ctx, p.parseFlowSequence)
 	case token.MappingStartType:
-		return p.parseFlowMapping(ind, ctx)
+		return p.parseFlowCollectionOnce(ind, ctx, p.parseFlowMapping)
 	case token.SingleQuoteType:
 		return p.parseSingleQuoted(ind, ctx)
 	case token.DoubleQuoteType:
@@ -432,6 +432,43 @@ func (p *parser) parseQuotedInLine(charSet yamlchar.CharSetType, buf *bytes.Buff
 	}
 }
 
+// flowCollectionKey identifies an attempt to parse a flow collection.
+type flowCollectionKey struct {
+	offset int
+	ctx    context
+	ind    indentation
+}
+
+// flowCollection is the outcome of the attempt.
+type flowCollection struct {
+	node ast.Node
+	end  int
+	ind  indentation
+}
+
+// parseFlowCollectionOnce parses a flow collection unless it was already parsed from the same token
+// in the same way: a flow collection may be attempted to parse as a key at first, and doing it
+// again on each level of nesting takes exponential time.
+func (p *parser) parseFlowCollectionOnce(
+	ind *indentation,
+	ctx context,
+	parse func(*indentation, context) ast.Node,
+) ast.Node {
+	key := flowCollectionKey{offset: p.offset, ctx: ctx, ind: *ind}
+	if parsed, ok := p.flowCollections[key]; ok {
+		for p.offset < parsed.end {
+			p.next()
+		}
+		*ind = parsed.ind
+		return parsed.node
+	}
+	node := parse(ind, ctx)
+	if !p.hasErrors() {
+		p.flowCollections[key] = flowCollection{node: node, end: p.offset, ind: *ind}
+	}
+	return node
+}
+
 // YAML specification: [140] c-flow-mapping
 func (p *parser) parseFlowMapping(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.MappingStartType {
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 00e10aa..5e249af 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -53,10 +53,14 @@ type parser struct {
 	// blockScalarInd is the indentation of the block scalar being parsed
 	blockScalarInd *indentation
 	deadEndFinder  deadend.Finder
+	// flowCollections keeps already parsed flow collections
+	flowCollections map[flowCollectionKey]flowCollection
 }
 
 type state struct {
-	startOfLine         bool
+	startOfLine bool
+	// offset is an amount of tokens read
+	offset              int
 	balanceCheckMemento balancecheck.BalanceCheckerMemento
 }
 
@@ -80,7 +84,8 @@ func newParser(tokSrc *tokenSource) *parser {
 			{token.SequenceStartType, token.SequenceEndType},
 			{token.MappingStartType, token.MappingEndType},
 		}),
-		deadEndFinder: deadend.NewFinder(),
+		deadEndFinder:   deadend.NewFinder(),
+		flowCollections: map[flowCollectionKey]flowCollection{},
 	}
 }
 
@@ -148,6 +153,7 @@ func (p *parser) next() {
 	p.startOfLine = isStartOfLine(p.startOfLine, p.tok)
 	p.switchBlockScalarMode()
 	p.tok = p.tokSrc.Next()
+	p.offset++
 	switch p.tok.Type {
 	case token.EOFType:
 		if !p.balanceChecker.IsBalanced() {
@@ -211,6 +217,7 @@ func (p *parser) release() {
 	p.savedStates = p.savedStates[:0]
 	p.balanceChecker.Reset()
 	p.deadEndFinder.Reset()
+	clear(p.flowCollections)
 	p.errors = p.errors[:0]
 	p.blockScalarInd = nil
 	p.state = state{startOfLine: true}
@@ -221,6 +228,7 @@ func (p *parser) setCheckpoint() {
 	p.tokSrc.SetCheckpoint()
 	p.savedStates = append(p.savedStates, state{
 		startOfLine:         p.startOfLine,
+		offset:              p.offset,
 		balanceCheckMemento: p.balanceChecker.Memento(),
 	})
 }
-- 
2.43.0


From e5b8084382094546fdd81f9504c67fe10c7e9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 62/71] fix: recognise document markers only, and always, at
 the start of a line

---
 engines/yayamls/lexer/context.go | 10 ++++++++--
 engines/yayamls/parser/block.go  |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index d47318d..9bdb164 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -124,7 +124,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DirectiveEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.lookbehind(mayPrecedeDocumentMarker) {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -239,7 +239,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.lookbehind(mayPrecedeDocumentMarker) {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -250,6 +250,12 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
 
+// mayPrecedeDocumentMarker shows if given token may precede "---" or "...",
+// which are markers only at the very start of a line.
+func mayPrecedeDocumentMarker(tok token.Token) bool {
+	return token.MayPrecedeWord(tok) && !token.IsWhiteSpace(tok)
+}
+
 func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	tok := token.Token{Start: t.pos}
 
diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 1832400..0b144bb 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -664,7 +664,7 @@ func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if p.hasErrors() || !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
+	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) || isDocumentMarker(p.tok) {
 		return ast.NewInvalidNode()
 	}
 	buf.WriteString(p.tok.Origin)
@@ -953,7 +953,7 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 	if !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) {
+	if !token.IsNonBreak(p.tok) || isDocumentMarker(p.tok) {
 		return ast.NewInvalidNode()
 	}
 	p.tokSrc.SetRawMode()
@@ -964,3 +964,8 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 	p.tokSrc.UnsetRawMode()
 	return ast.NewBasicNode(ast.TextType)
 }
+
+// isDocumentMarker shows if the token separates documents, ending even a block scalar without indentation.
+func isDocumentMarker(tok token.Token) bool {
+	return tok.Type == token.DirectiveEndType || tok.Type == token.DocumentEndType
+}
-- 
2.43.0


From daa2a5d02a98f41da4b8a1115348569a4c9cf155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 63/71] fix: keep words with indicators inside of plain scalars

---
 engines/yayamls/lexer/context.go   |  8 ++++++++
 engines/yayamls/lexer/tokenizer.go | 26 +++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 9bdb164..56016da 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -88,8 +88,16 @@ func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
 
 	switch c.currentType() {
 	case blockContextType:
+		if t.withinPlain && r != yamlchar.MappingValueCharacter && r != yamlchar.CommentCharacter {
+			// indicators do not start anything inside of a plain scalar
+			return c.baseMatching(t, r)
+		}
 		return c.blockMatching(t, r)
 	case flowContextType:
+		if t.withinPlain && r != yamlchar.MappingValueCharacter && r != yamlchar.CommentCharacter &&
+			!yamlchar.IsFlowIndicatorChar(r) {
+			return c.baseMatching(t, r)
+		}
 		return c.flowMatching(t, r)
 	case commentContextType:
 		return c.commentMatching(t, r)
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index ec5c8b7..3fec538 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -19,6 +19,8 @@ type Tokenizer struct {
 
 	lookaheadBuf  []rune
 	lookbehindTok token.Token
+	// withinPlain shows if the current line continues a plain scalar.
+	withinPlain bool
 
 	preparedToken    token.Token
 	hasPreparedToken bool
@@ -77,7 +79,7 @@ func (t *Tokenizer) UnsetRawMode() {
 // Next emits next token.
 func (t *Tokenizer) Next() token.Token {
 	if t.hasPreparedToken {
-		t.lookbehindTok = t.preparedToken
+		t.setLookbehind(t.preparedToken)
 		tok := t.preparedToken
 		t.preparedToken = token.Token{}
 		t.hasPreparedToken = false
@@ -109,7 +111,7 @@ func (t *Tokenizer) emitToken() token.Token {
 				tok.End.Column--
 			} else {
 				tok = specialTok
-				t.lookbehindTok = tok
+				t.setLookbehind(tok)
 			}
 			break
 		}
@@ -117,7 +119,7 @@ func (t *Tokenizer) emitToken() token.Token {
 		if tok.Type == token.UnknownType {
 			tok.Type = token.StringType
 			tok.Start = curPos
-			t.lookbehindTok = tok
+			t.setLookbehind(tok)
 		}
 		originBuilder.WriteRune(r)
 	}
@@ -135,6 +137,24 @@ func (t *Tokenizer) lookahead(count int, predicate func([]rune) bool) bool {
 	return result
 }
 
+// setLookbehind remembers the last token and whether it belongs to a plain scalar.
+func (t *Tokenizer) setLookbehind(tok token.Token) {
+	switch tok.Type {
+	case token.StringType:
+		switch t.lookbehindTok.Type {
+		case token.AnchorType, token.AliasType, token.DirectiveType:
+			t.withinPlain = false
+		default:
+			ctxType := t.ctx.currentType()
+			t.withinPlain = ctxType == blockContextType || ctxType == flowContextType
+		}
+	case token.SpaceType, token.TabType:
+	default:
+		t.withinPlain = false
+	}
+	t.lookbehindTok = tok
+}
+
 func (t *Tokenizer) lookbehind(predicate func(token.Token) bool) bool {
 	return predicate(t.lookbehindTok)
 }
-- 
2.43.0


From 73f4e3144f5935df599c77f1595c6b0104b28af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 64/71] fix: read anchors, aliases and tags right after the
 colon of a JSON-like key

---
 engines/yayamls/lexer/context.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 56016da..db8b3de 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -324,21 +324,21 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.AnchorCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
+		if t.lookbehind(mayPrecedeNodeInFlow) {
 			tok.End = t.pos
 			tok.Type = token.AnchorType
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
 	case yamlchar.AliasCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
+		if t.lookbehind(mayPrecedeNodeInFlow) {
 			tok.End = t.pos
 			tok.Type = token.AliasType
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
+		if t.lookbehind(mayPrecedeNodeInFlow) {
 			c.switchContext(tagContextType)
 			tok.End = t.pos
 			tok.Type = token.TagType
@@ -346,9 +346,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeNodeInFlow) {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -356,9 +354,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeNodeInFlow) {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -374,6 +370,12 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
 
+// mayPrecedeNodeInFlow shows if a node may start right after the token: the value of a JSON-like key
+// needs no separation from its colon.
+func mayPrecedeNodeInFlow(tok token.Token) bool {
+	return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
+}
+
 func mayPrecedeWordInFlow(tok token.Token) bool {
 	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
 }
-- 
2.43.0


From 6129b4887b2f538f446d9d589a7e720545b88e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 65/71] fix: accept properties of JSON-like keys in flow
 mappings

---
 engines/yayamls/parser/flow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 90376f3..e7d166d 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -822,7 +822,8 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 		return ast.NewInvalidNode()
 	}
 	p.setCheckpoint()
-	entry := p.parseFlowMappingYAMLKeyEntry(ind, ctx)
+	// the JSON key goes first: its properties alone would be a YAML key without content
+	entry := p.parseFlowMappingJSONKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
@@ -830,7 +831,7 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	p.rollback()
 
 	p.setCheckpoint()
-	entry = p.parseFlowMappingJSONKeyEntry(ind, ctx)
+	entry = p.parseFlowMappingYAMLKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
-- 
2.43.0


From 0eea65e16ffd906145c64641de043d9c988fc024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 66/71] fix: accept escaped line breaks after text in double
 quoted scalars

---
 engines/yayamls/parser/flow.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index e7d166d..db02fcd 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
@@ -217,16 +218,6 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewInvalidNode()
 	}
 
-	p.setCheckpoint()
-
-	if p.tok.Type != token.StringType || !p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType) {
-		p.rollback()
-		return ast.NewBasicNode(ast.TextType)
-	}
-	p.commit()
-	buf.WriteString(p.tok.Origin)
-	p.next()
-
 	p.parseQuotedInLine(yamlchar.DoubleQuotedCharSetType, buf)
 
 	p.setCheckpoint()
@@ -274,10 +265,14 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		p.next()
 	}
 
-	if p.tok.Type != token.StringType || p.tok.Origin != "\\" {
+	// the backslash is not separated from the text before it
+	text := strings.TrimSuffix(p.tok.Origin, "\\")
+	if p.tok.Type != token.StringType || text == p.tok.Origin ||
+		!yamlchar.ConformsCharSet(text, yamlchar.DoubleQuotedCharSetType) {
 		buf.Truncate(savedLen)
 		return ast.NewInvalidNode()
 	}
+	buf.WriteString(text)
 	p.next()
 	if p.tok.Type != token.LineBreakType {
 		buf.Truncate(savedLen)
@@ -288,6 +283,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		p.setCheckpoint()
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
+			p.rollback()
 			buf.Truncate(savedLen)
 			break
 		}
-- 
2.43.0


From 6767d4221b80ded1551ae9a518085144777c858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:11 +0000
Subject: [PATCH 67/71] fix: write the non-specific tag

---
 engines/yayamls/encode/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 5f990af..878ca2a 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -149,6 +149,11 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 }
 
 func (w *ASTWriter) VisitTagNode(n *ast.TagNode) {
+	if n.Text() == "" {
+		// the non-specific tag
+		w.buf.WriteString("!")
+		return
+	}
 	w.buf.WriteString("!!")
 	w.buf.WriteString(n.Text())
 }
-- 
2.43.0


From eecccc7453f0218b130027fb600d7f3cf9577143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 68/71] fix: separate single pairs with complex keys from the
 sequence entry indicator

---
 engines/yayamls/encode/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 878ca2a..8d54715 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -259,6 +259,10 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	isComplexKey := isComplex(n.Key())
 	if isComplexKey {
+		// a single pair of a sequence is separated here, not by the key
+		w.buf.WriteString(w.beforeComplex)
+		w.writeBeforeComplexElements("")
+		w.writeBeforeSimpleElements("")
 		w.buf.WriteString("? ")
 		w.increaseIndentation()
 	}
-- 
2.43.0


From 44ba05969b4dc6a2077ad01d868572339ab225e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:21 +0000
Subject: [PATCH 69/71] fix: use marshalling methods of pointers (goyaml)

---
 engines/goyaml/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index 26571a2..8e610b7 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -81,6 +81,10 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
+		if !t.Implements(marshalIface) {
+			// methods of the pointer are not seen in the value
+			inArg = "&" + inArg
+		}
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(yaml.Marshal("+inArg+"))")
 		return generator.ImplementationResultTrue, nil
 	}
-- 
2.43.0


From 41a94ea87a4262ef4be047d0288f885b42da5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:04 +0000
Subject: [PATCH 70/71] fix: generate code for interfaces with marshalling
 methods

---
 engines/goyaml/engine.go  | 12 ++++++++++--
 engines/yayamls/engine.go | 12 ++++++++++--
 generator/decoder.go      | 12 +++++++++---
 generator/encoder.go      | 10 +++++++---
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index 8e610b7..c4c66b0 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -61,7 +61,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	unmarshalIface := reflect.TypeOf((*yaml.Unmarshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(unmarshalIface) {
+	if hasMethods(t, unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
 		fmt.Fprintln(dst, whitespace+"  if node := extIn.Node(); node != nil {")
@@ -80,7 +80,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(marshalIface) {
+	if hasMethods(t, marshalIface) {
 		if !t.Implements(marshalIface) {
 			// methods of the pointer are not seen in the value
 			inArg = "&" + inArg
@@ -112,3 +112,11 @@ func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, in
 	fmt.Fprintln(dst, whitespace+"out.InsertRaw(yaml.Marshal("+inArg+"))")
 	return nil
 }
+
+// hasMethods shows if variables of type t have the methods of iface.
+func hasMethods(t, iface reflect.Type) bool {
+	if t.Kind() != reflect.Interface {
+		t = reflect.PtrTo(t)
+	}
+	return t.Implements(iface)
+}
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index ff38bc1..13c3c05 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -64,7 +64,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	unmarshalIface := reflect.TypeOf((*Unmarshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(unmarshalIface) {
+	if hasMethods(t, unmarshalIface) {
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"in.AddError(("+outArg+").UnmarshalYAML(in.Raw()))")
 		return generator.ImplementationResultTrue, nil
 	}
@@ -78,7 +78,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 	indent int,
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
-	if reflect.PtrTo(t).Implements(marshalIface) {
+	if hasMethods(t, marshalIface) {
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
@@ -107,3 +107,11 @@ func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, in
 	fmt.Fprintln(dst, whitespace+"}")
 	return nil
 }
+
+// hasMethods shows if variables of type t have the methods of iface.
+func hasMethods(t, iface reflect.Type) bool {
+	if t.Kind() != reflect.Interface {
+		t = reflect.PtrTo(t)
+	}
+	return t.Implements(iface)
+}
diff --git a/generator/decoder.go b/generator/decoder.go
index 011a684..e01bb9b 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -177,7 +177,7 @@ func (g *Generator) generateDecoderBody(
 	complexTypeElem bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && t.Kind() != reflect.Interface {
 		whitespace := strings.Repeat(" ", indent)
 
 		unmarshalIface := reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem()
@@ -349,9 +349,14 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 		fmt.Fprintln(g.out, whitespace+"}")
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
+			fmt.Fprintln(g.out, whitespace+"if in.TryNull() {")
+			fmt.Fprintln(g.out, whitespace+"  "+outArg+" = nil")
+			fmt.Fprintln(g.out, whitespace+"} else if ("+outArg+") == nil {")
+			fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
+			fmt.Fprintln(g.out, whitespace+"} else {")
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"("+outArg+").UnmarshalYamly(in)")
-			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
+				fmt.Fprintln(g.out, whitespace+"  ("+outArg+").UnmarshalYamly(in)")
+			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent+indentDelta); err != nil {
 				return err
 			} else {
 				switch implResult {
@@ -363,6 +368,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 					fmt.Fprintln(g.out, whitespace+"}")
 				}
 			}
+			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
diff --git a/generator/encoder.go b/generator/encoder.go
index 56f74b8..cc72480 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -169,7 +169,7 @@ func (g *Generator) generateEncoderBody(
 	canBeNull bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && t.Kind() != reflect.Interface {
 		whitespace := strings.Repeat(" ", indent)
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
@@ -324,9 +324,12 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		fmt.Fprintln(g.out, whitespace+"}")
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
+			fmt.Fprintln(g.out, whitespace+"if ("+inArg+") == nil {")
+			fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+			fmt.Fprintln(g.out, whitespace+"} else {")
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
-			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
+				fmt.Fprintln(g.out, whitespace+"  ("+inArg+").MarshalYamly(out)")
+			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent+2); err != nil {
 				return err
 			} else {
 				switch implResult {
@@ -338,6 +341,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 					fmt.Fprintln(g.out, whitespace+"}")
 				}
 			}
+			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
-- 
2.43.0


From 0972eaf8b27932594b21466f563533e1a6ad1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:11 +0000
Subject: [PATCH 71/71] fix: keep inlined pointers which are set

Generated decoders replaced the pointers to inlined structs with new ones,
so that decoding into a variable lost the inlined fields the document does not name.
---
 generator/decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index e01bb9b..433f094 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -133,7 +133,7 @@ func (g *Generator) generateUnknownFieldCheck(fields []structField) {
 	fmt.Fprintln(g.out, "      }")
 }
 
-// generateInlinedPointers sets the inlined fields of the struct arg which are pointers.
+// generateInlinedPointers sets the inlined fields of the struct arg which are nil pointers.
 func (g *Generator) generateInlinedPointers(t reflect.Type, arg string) {
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
@@ -148,7 +148,9 @@ func (g *Generator) generateInlinedPointers(t reflect.Type, arg string) {
 			continue
 		}
 		if f.Type.Kind() == reflect.Pointer {
-			fmt.Fprintln(g.out, "  "+arg+"."+f.Name+" = new("+g.extractTypeName(ft)+")")
+			fmt.Fprintln(g.out, "  if "+arg+"."+f.Name+" == nil {")
+			fmt.Fprintln(g.out, "    "+arg+"."+f.Name+" = new("+g.extractTypeName(ft)+")")
+			fmt.Fprintln(g.out, "  }")
 		}
 		g.generateInlinedPointers(ft, arg+"."+f.Name)
 	}
-- 
2.43.0

